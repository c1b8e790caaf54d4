#include "seghist.hpp"
#include "viennagrid/element/element_view.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include <memory>
using namespace seghist;

template<class E> struct Pick { std::set<Key> const * want; std::vector<Key> * seen; bool operator()(E const & e) const { Key k = sorted(vids(e)); seen->push_back(k); return want->count(k) > 0; } };

// what a range over a view lists, checked forwards, by position and through a const object
template<class V> std::vector<Key> listing(V & v, char const * what) {
  std::vector<Key> r; for (typename V::iterator it = v.begin(); it != v.end(); ++it) r.push_back(sorted(vids(*it)));
  VH_CHECK(v.size() == r.size(), what << ": size() is " << v.size() << " but " << r.size() << " elements are visited"); VH_CHECK(v.empty() == r.empty(), what << ": empty()");
  for (size_t i = 0; i < r.size(); ++i) VH_CHECK(sorted(vids(v[i])) == r[i], what << ": element by position " << i);
  V const & c = v; size_t n = 0; for (typename V::const_iterator it = c.begin(); it != c.end(); ++it, ++n) VH_CHECK(n < r.size() && sorted(vids(*it)) == r[n], what << ": const iteration"); VH_CHECK(n == r.size(), what << ": const iteration count");
  if (!r.empty()) { VH_CHECK(sorted(vids(v.front())) == r.front(), what << ": front()"); VH_CHECK(sorted(vids(v.back())) == r.back(), what << ": back()"); }
  return r;
}
inline std::string strs(std::vector<Key> const & v) { std::string o; for (auto const & k : v) o += str(k) + " "; return o; }

// views of one element type
template<class W, int D> struct ElViews {
  typedef typename W::M M; typedef typename TagOf<typename W::CT, D>::type ET; typedef typename viennagrid::result_of::element<M, ET>::type E;
  typedef typename viennagrid::result_of::element_view<M, ET>::type V; typedef typename viennagrid::result_of::handle<M, ET>::type H;
  struct Item { V v; std::vector<Key> k; };
  std::vector<std::unique_ptr<Item> > views;
  template<class Host> void make(vh::Src & s, M & mesh, Host & host, KeySet const & in, std::ostream & o) {
    if (views.size() > 5) return; KeySet want; int p = (int)s.range(0, 100); std::vector<Key> order; auto r = viennagrid::elements<ET>(host); for (auto it = r.begin(); it != r.end(); ++it) { Key k = sorted(vids(*it)); VH_CHECK(in.count(k), "host lists an unknown element " << str(k)); if (s.chance(p)) want.insert(k); }
    for (auto it = r.begin(); it != r.end(); ++it) { Key k = sorted(vids(*it)); if (want.count(k)) order.push_back(k); }
    std::unique_ptr<Item> it(new Item);
    if (s.chance(25)) { it->v = viennagrid::element_view<ET>(mesh); o << "new" << D << " "; VH_CHECK(it->v.empty() && it->v.size() == 0 && it->v.begin() == it->v.end(), "a new view is not empty"); }
    else { std::vector<Key> seen; Pick<E> f; f.want = &want; f.seen = &seen; it->v = viennagrid::element_view<ET>(host, f); it->k = order; KeySet ss(seen.begin(), seen.end()); VH_CHECK(ss == in, "the filter was not asked about every element of the host exactly: " << ss.size() << " of " << in.size()); o << "filter" << D << ":" << order.size() << "/" << in.size() << " "; }
    views.push_back(std::move(it));
  }
  bool change(vh::Src & s, M & mesh, std::ostream & o) {
    if (views.empty()) return false; size_t i = (size_t)s.draw(views.size()); Item & v = *views[i]; auto r = viennagrid::elements<ET>(mesh); if (r.size() == 0) return false;
    H h = r.handle_at((size_t)s.draw(r.size())); Key k = sorted(vids(viennagrid::dereference_handle(mesh, h))); auto pos = std::find(v.k.begin(), v.k.end(), k);
    switch (s.draw(6)) {
      case 0: case 1: v.v.insert_unique_handle(h); if (pos == v.k.end()) v.k.push_back(k); o << "+" << str(k) << " "; break;
      case 2: if (pos == v.k.end()) { v.v.insert_handle(h); v.k.push_back(k); o << "!" << str(k) << " "; } break;
      case 3: case 4: if (s.chance(25)) { v.v.clear(); v.k.clear(); o << "clear "; } break;
      default: if (views.size() < 6) { std::unique_ptr<Item> n(new Item); n->v = v.v; n->k = v.k; views.push_back(std::move(n)); o << "copy "; }      // a copy has its own members
    }
    return true;
  }
  size_t check(M & mesh) {
    size_t n = 0;
    for (size_t i = 0; i < views.size(); ++i) {
      std::ostringstream w; w << "view " << i << " of dimension " << D; std::vector<Key> got = listing(views[i]->v, w.str().c_str()); VH_CHECK(got == views[i]->k, w.str() << " holds " << strs(got) << "instead of " << strs(views[i]->k)); n += got.size();
      for (typename V::iterator it = views[i]->v.begin(); it != views[i]->v.end(); ++it) { VH_CHECK(&viennagrid::dereference_handle(mesh, it.handle()) == &*it, w.str() << ": handle"); bool same = false; for (auto & e : viennagrid::elements<ET>(mesh)) if (&e == &*it) same = true; VH_CHECK(same, w.str() << " refers to an element that is not the mesh's own"); }
    }
    return n;
  }
};
// views over all element types of a mesh
template<class W> struct MeshView {
  typedef typename W::M M; typedef typename W::CT CT; enum { TD = W::TD }; typedef typename viennagrid::result_of::mesh_view<M>::type V;
  V v; std::vector<std::vector<Key> > k; MeshView(M & m) : v(viennagrid::make_view(m)), k(4) {}
  MeshView(MeshView const & o) : v(o.v), k(o.k) {}
  template<int D> bool add(vh::Src & s, W & w, std::ostream & o) { typedef typename TagOf<CT, D>::type ET; auto r = viennagrid::elements<ET>(w.mesh); if (r.size() == 0) return false; auto h = r.handle_at((size_t)s.draw(r.size())); Key q = sorted(vids(viennagrid::dereference_handle(w.mesh, h))); viennagrid::add_single_handle(v, h); if (std::find(k[D].begin(), k[D].end(), q) == k[D].end()) k[D].push_back(q); o << "a" << str(q) << " "; return true; }
  template<int D> bool take(vh::Src & s, W & w, std::ostream & o) {
    typedef typename TagOf<CT, D>::type ET; if (k[D].empty()) return false; Key q = k[D][(size_t)s.draw(k[D].size())]; auto r = viennagrid::elements<ET>(w.mesh); o << "e" << str(q) << " ";
    for (auto it = r.begin(); it != r.end(); ++it) if (sorted(vids(*it)) == q) { viennagrid::erase_element(v, it.handle()); break; }
    for (int d = D + 1; d <= (int)TD; ++d) { std::vector<Key> n; for (auto const & x : k[(size_t)d]) if (!w.bnd(x, d, D).count(q)) n.push_back(x); k[(size_t)d] = n; } k[D].erase(std::find(k[D].begin(), k[D].end(), q)); return true;
  }
  void put(Key const & q, int d, W & w) { for (int x = 0; x <= d; ++x) { KeySet b; if (x == d) b.insert(q); else b = w.bnd(q, d, x); for (auto const & e : b) if (std::find(k[(size_t)x].begin(), k[(size_t)x].end(), e) == k[(size_t)x].end()) k[(size_t)x].push_back(e); } }
  // a new vertex or cell made through the view belongs to the mesh and, with its boundary, to the view
  bool create(vh::Src & s, W & w, std::ostream & o) {
    if (!w.gridonly && s.chance(20)) { Pt p; for (int d = 0; d < (int)W::T::Point::dim; ++d) p.push_back(s.real()); w.vh.push_back(viennagrid::make_vertex(v, to_point<typename W::T::Point>(p))); Key q(1, (int)w.pts.size()); w.pts.push_back(p); w.mh.direct[0].insert(q); w.put_log(-1, 0, q); put(q, 0, w); o << "v" << str(q) << " "; return true; }
    Cell q; if (!w.next_cell(s, q)) return false; std::vector<typename W::T::VH> h; for (int x : q) h.push_back(w.vh[(size_t)x]);
    w.ch.push_back(viennagrid::make_cell(v, h.begin(), h.end())); w.byk[sorted(q)] = w.cells.size(); w.mh.cells.insert((int)w.cells.size()); w.cells.push_back(q); w.put_log(-1, TD, q);
    std::vector<Key> before(k[0]); put(sorted(q), TD, w); o << "m" << str(q) << " ";
    // whether the vertices, which existed before, join the view is left open: take over what the view says, within those bounds
    std::vector<Key> now; for (auto & e : viennagrid::elements<viennagrid::vertex_tag>(v)) now.push_back(sorted(vids(e))); for (auto const & e : now) VH_CHECK(std::find(k[0].begin(), k[0].end(), e) != k[0].end(), "a vertex unrelated to the new cell joined the view"); for (auto const & e : before) VH_CHECK(std::find(now.begin(), now.end(), e) != now.end(), "a vertex left the view"); k[0] = now; return true;
  }
  template<int D> void check(W & w) {
    typedef typename TagOf<CT, D>::type ET; auto r = viennagrid::elements<ET>(v); std::ostringstream o; o << "mesh view, dimension " << D; std::vector<Key> got; for (auto it = r.begin(); it != r.end(); ++it) got.push_back(sorted(vids(*it))); std::vector<Key> a(got), b(k[D]); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    VH_CHECK(a == b, o.str() << " holds " << strs(a) << "instead of " << strs(b)); VH_CHECK(r.size() == got.size(), o.str() << ": size()");
    V const & cv = v; size_t n = 0; auto cr = viennagrid::elements<ET>(cv); for (auto it = cr.begin(); it != cr.end(); ++it) ++n; VH_CHECK(n == got.size(), o.str() << ": const range");
    auto mr = viennagrid::elements<ET>(w.mesh); for (auto it = mr.begin(); it != mr.end(); ++it) { bool in = std::binary_search(b.begin(), b.end(), sorted(vids(*it))); VH_CHECK((viennagrid::find_by_handle(v, it.handle()) != r.end()) == in, o.str() << ": find_by_handle of " << str(sorted(vids(*it)))); VH_CHECK((viennagrid::find(v, (*it).id()) != r.end()) == in, o.str() << ": find by id of " << str(sorted(vids(*it)))); if (in) VH_CHECK(&*viennagrid::find(v, (*it).id()) == &*it, o.str() << ": find returns another element"); }
  }
  // facets of the view are boundary when an odd number of the view's cells contains them
  void queries(W & w, bool cob) {
    typedef typename TagOf<CT, (int)TD - 1>::type FT; std::map<Key, int> cnt; std::map<Key, KeySet> vc; for (auto const & q : k[TD]) { for (auto const & f : w.bnd(q, TD, (int)TD - 1)) ++cnt[f]; for (int x : q) vc[Key(1, x)].insert(q); }
    if (!cob) { for (auto & e : viennagrid::elements<FT>(v)) { Key q = sorted(vids(e)); VH_CHECK(viennagrid::is_boundary(v, e) == (cnt[q] % 2 == 1), "boundary of a view, facet " << str(q)); } return; }
    auto r = viennagrid::elements<viennagrid::vertex_tag>(v); for (auto it = r.begin(); it != r.end(); ++it) { KeySet got; for (auto & q : viennagrid::coboundary_elements<viennagrid::vertex_tag, CT>(v, it.handle())) got.insert(sorted(vids(q))); Key q(1, (int)(*it).id().get()); VH_CHECK(got == vc[q], "cells of a view around vertex " << q[0]); }
  }
};
template<class W, int D> struct At {
  template<class X> static bool add(X & x, int d, vh::Src & s, W & w, std::ostream & o) { return d >= D ? x.template add<D>(s, w, o) : At<W, D - 1>::add(x, d, s, w, o); }
  template<class X> static bool take(X & x, int d, vh::Src & s, W & w, std::ostream & o) { return d >= D ? x.template take<D>(s, w, o) : At<W, D - 1>::take(x, d, s, w, o); }
  template<class X> static void check(X & x, W & w) { At<W, D - 1>::check(x, w); x.template check<D>(w); }
};
template<class W> struct At<W, -1> {
  template<class X> static bool add(X &, int, vh::Src &, W &, std::ostream &) { return false; }
  template<class X> static bool take(X &, int, vh::Src &, W &, std::ostream &) { return false; }
  template<class X> static void check(X &, W &) {}
};

template<class W, int D> struct WholeMesh { static void check(W & w) { typedef typename TagOf<typename W::CT, D>::type ET; std::vector<Key> got; for (auto & e : viennagrid::elements<ET>(w.mesh)) got.push_back(sorted(vids(e))); VH_CHECK(KeySet(got.begin(), got.end()) == w.mh.el[D] && got.size() == w.mh.el[D].size(), "the mesh holds " << got.size() << " elements of dimension " << D << " instead of " << w.mh.el[D].size()); WholeMesh<W, D - 1>::check(w); } };
template<class W> struct WholeMesh<W, -1> { static void check(W &) {} };

template<class M, int D> void el_views(vh::Src & s, vh::Case & c) {
  typedef World<M> W; W w; w.start(s, (int)W::TD == 3 ? 2 : 3, 3, 50); ElViews<W, D> ev; long ops = s.size(3, 30); size_t filtered = 0; bool later = false;
  for (long i = 0; i < ops; ++i) {
    if (s.chance(45) || w.cells.empty()) { c.desc << w.step(s) << " "; if (!ev.views.empty()) later = true; }
    else if (s.chance(40)) { int t = (int)s.range(-1, (long)w.seg.size() - 1); if (t < 0) ev.make(s, w.mesh, w.mesh, w.mh.el[D], c.desc); else { typename W::SH sh = w.sgn[t]; ev.make(s, w.mesh, sh, w.seg[(size_t)t].el[D], c.desc); } }
    else ev.change(s, w.mesh, c.desc);
    filtered = std::max(filtered, ev.check(w.mesh));
  }
  c.hit(filtered >= 3 && ev.views.size() >= 2 && later); w.describe(c.desc);
}
template<class M> void mesh_views(vh::Src & s, vh::Case & c) {
  typedef World<M> W; typedef MeshView<W> MV; enum { TD = W::TD }; W w; w.start(s, (int)W::TD == 3 ? 2 : 3, 2, 50); std::vector<std::unique_ptr<MV> > v; long ops = s.size(3, 40); bool took = false, copied = false, made = false;
  for (long i = 0; i < ops; ++i) {
    if (w.cells.empty() || s.chance(30)) { c.desc << w.step(s) << " "; }
    else if (v.empty() || (v.size() < 4 && s.chance(8))) {
      if (!v.empty() && s.chance(40)) { v.push_back(std::unique_ptr<MV>(new MV(*v[(size_t)s.draw(v.size())]))); c.desc << "copy "; copied = true; }
      else { v.push_back(std::unique_ptr<MV>(new MV(w.mesh))); c.desc << "view "; }
    }
    else if (v.size() > 1 && s.chance(6)) { size_t a = (size_t)s.draw(v.size()), b = (size_t)s.draw(v.size()); v[a]->v = v[b]->v; v[a]->k = v[b]->k; c.desc << a << ":=" << b << " "; copied = true; }
    else { size_t j = (size_t)s.draw(v.size()); c.desc << j; switch (s.draw(10)) { case 0: case 1: took |= At<W, TD>::take(*v[j], (int)s.draw(TD + 1), s, w, c.desc); break; case 2: v[j]->queries(w, false); c.desc << "b "; break; case 3: v[j]->queries(w, true); c.desc << "c "; break; case 4: made |= v[j]->create(s, w, c.desc); break; default: At<W, TD>::add(*v[j], s.chance(50) ? (int)TD : (int)s.draw(TD + 1), s, w, c.desc); } }
    for (auto & x : v) At<W, TD>::check(*x, w);
    WholeMesh<W, TD>::check(w);
  }
  size_t n = 0; for (auto & x : v) n += x->k[TD].size(); c.hit(took && n > 0); if (copied) c.label("copied"); if (made) c.label("cells made through a view"); w.describe(c.desc);
}
