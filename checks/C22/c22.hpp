#include "meshgen.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/functors.hpp"
#include "viennagrid/algorithm/quantity_transfer.hpp"
#include <deque>
#include <cstring>
#include <memory>
using namespace mg; using vh::Case;
inline void mkval(Src & s, double & v) { v = s.real(1.0); }
inline void mkval(Src & s, std::string & v) { v = std::string((size_t)s.draw(4), 'x') + std::to_string(s.draw(1000)); }
inline void mkval(Src & s, int & v) { v = (int)s.range_signed(1000); }
template<class C> struct IsDense { static const bool value = true; };
template<class K, class V> struct IsDense<std::map<K, V> > { static const bool value = false; };
template<class V> struct Model { bool dense; std::map<long, V> val; long size; Model(bool d) : dense(d), size(0) {}
  bool has(long id) const { return dense ? id < size : val.count(id) > 0; }
  V get(long id) const { auto it = val.find(id); return it == val.end() ? V() : it->second; }
  void touch(long id) { if (dense) { if (id >= size) size = id + 1; } else if (!val.count(id)) val[id] = V(); } };
template<class V> std::string vs(V const & v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
// one container with all ways to look at it
template<class E, class C, class V> struct Store { C c; Model<V> m; V def; Store() : m(IsDense<C>::value), def() {}
  typedef typename viennagrid::result_of::accessor<C, E>::type Acc; typedef typename viennagrid::result_of::accessor<const C, E>::type CAcc; typedef typename viennagrid::result_of::field<C, E>::type Fld; typedef typename viennagrid::result_of::field<const C, E>::type CFld;
  // any of the reading paths for one element
  void check(Src & s, E const & e, bool has_def) { long id = (long)e.id().get(); bool h = m.has(id); V w = m.get(id); std::string what = " of element " + std::to_string(id);
    switch (s.draw(h ? 11 : 8)) {
      case 0: { Acc a(c); auto p = a.find(e); VH_EQ(p != 0, h, "find finds data" + what); if (p) VH_EQ(vs(*p), vs(w), "data" + what); break; }
      case 1: { const CAcc a(c); auto p = a.find(e); VH_EQ(p != 0, h, "const find finds data" + what); if (p) VH_EQ(vs(*p), vs(w), "data" + what); break; }
      case 2: { Acc a(c); at_ok(a, e, h, w, "accessor at" + what); Acc const & ca = a; at_ok(ca, e, h, w, "const accessor at" + what); auto p = ca.find(e); VH_EQ(p != 0, h, "find of a const accessor" + what); break; }
      case 3: { CAcc a(c); at_ok(a, e, h, w, "accessor of const container, at" + what); break; }
      case 4: { Fld f = has_def ? Fld(c, def) : viennagrid::make_field<E>(c); at_ok(f, e, h, w, "field at" + what); Fld const & cf = f; at_ok(cf, e, h, w, "const field at" + what); VH_EQ(vs(cf(e)), vs(h ? w : has_def ? def : V()), "const field value" + what); auto p = f.find(e); VH_EQ(p != 0, h, "field find" + what); auto q = cf.find(e); VH_EQ(q != 0, h, "const field find" + what); if (q) VH_EQ(vs(*q), vs(w), "const field find" + what); break; }
      case 5: { C const & cc = c; CFld f = has_def ? CFld(cc, def) : viennagrid::make_field<E>(cc); at_ok(f, e, h, w, "field of const container, at" + what); VH_EQ(vs(f(e)), vs(h ? w : has_def ? def : V()), "value of a field of a const container" + what); auto q = f.find(e); VH_EQ(q != 0, h, "find in a field of a const container" + what); if (q) VH_EQ(vs(*q), vs(w), "find" + what); break; }
      case 6: { std::unique_ptr<viennagrid::base_dynamic_field<V, E> > f(new viennagrid::dynamic_field_wrapper<Fld, E>(has_def ? Fld(c, def) : Fld(c))); at_ok(*f, e, h, w, "dynamic field at" + what); viennagrid::base_dynamic_field<V, E> const & cf = *f; VH_EQ(vs(cf(e)), vs(h ? w : has_def ? def : V()), "dynamic field value" + what); VH_EQ(cf.find(e) != 0, h, "dynamic field find" + what); at_ok(cf, e, h, w, "const dynamic field at" + what); break; }
      case 7: { std::unique_ptr<viennagrid::base_dynamic_field<const V, E> > f(new viennagrid::dynamic_field_wrapper<const CFld, E>(has_def ? CFld(c, def) : CFld(c))); VH_EQ(vs((*f)(e)), vs(h ? w : has_def ? def : V()), "constant dynamic field value" + what); VH_EQ(f->find(e) != 0, h, "constant dynamic field find" + what); at_ok(*f, e, h, w, "constant dynamic field at" + what); break; }
      case 8: { Acc a = viennagrid::make_accessor<E>(c); VH_EQ(vs(a(e)), vs(w), "accessor value" + what); Acc const & ca = a; VH_EQ(vs(ca(e)), vs(w), "const accessor value" + what); Acc cp(a); VH_EQ(&cp(e), &a(e), "copy of the accessor refers to other data"); break; }
      case 9: { C const & cc = c; CAcc a = viennagrid::make_accessor<E>(cc); VH_EQ(vs(a(e)), vs(w), "value through an accessor of a const container" + what); break; }
      default: { std::unique_ptr<viennagrid::base_dynamic_accessor<V, E> > a(new viennagrid::dynamic_accessor_wrapper<Acc>(Acc(c))); VH_EQ(vs((*a)(e)), vs(w), "dynamic accessor value" + what); viennagrid::base_dynamic_accessor<V, E> const & ca = *a; VH_EQ(vs(ca(e)), vs(w), "const dynamic accessor value" + what); at_ok(ca, e, h, w, "const dynamic accessor at" + what); VH_EQ(a->find(e) != 0, h, "dynamic accessor find" + what); break; }
    } }
  template<class A> void at_ok(A & a, E const & e, bool h, V const & w, std::string const & what) { bool thrown = false; try { VH_EQ(vs(a.at(e)), vs(w), what); } catch (std::out_of_range const &) { thrown = true; } VH_EQ(thrown, !h, what + " throws out_of_range"); }
  void write(Src & s, E & e, bool has_def) { long id = (long)e.id().get(); bool h = m.has(id); V v; mkval(s, v); switch (s.draw(h ? 7 : 4)) {
      case 0: { Acc a(c); a(e) = v; m.touch(id); m.val[id] = v; break; }
      case 1: { Fld f = has_def ? Fld(c, def) : Fld(c); f(e) = v; m.touch(id); m.val[id] = v; break; }
      case 2: { std::unique_ptr<viennagrid::base_dynamic_field<V, E> > f(new viennagrid::dynamic_field_wrapper<Fld, E>(Fld(c))); (*f)(e) = v; m.touch(id); m.val[id] = v; break; }
      case 3: { if (s.chance(50)) { Acc a(c); VH_EQ(vs(a(e)), vs(m.get(id)), "value before the first write"); m.touch(id); } else { std::unique_ptr<viennagrid::base_dynamic_accessor<V, E> > f(new viennagrid::dynamic_accessor_wrapper<Acc>(Acc(c))); (*f)(e) = v; m.touch(id); m.val[id] = v; } break; }
      case 4: { Acc a(c); a.at(e) = v; m.val[id] = v; break; }
      case 5: { Fld a(c); a.at(e) = v; m.val[id] = v; break; }
      default: { Acc a(c); *a.find(e) = v; m.val[id] = v; break; }
    } } };
template<class A> void invalid(char const * what) { alignas(A) unsigned char buf[sizeof(A)]; std::memset(buf, 0x5a, sizeof buf); A * a = new (buf) A(); bool v = a->is_valid(); a->~A(); VH_CHECK(!v, what << " without container claims to be valid"); }
template<class E, class C, class V> void validity() { typedef Store<E, C, V> S; C c; invalid<typename S::Acc>("accessor"); invalid<typename S::CAcc>("constant accessor"); invalid<typename S::Fld>("field"); invalid<typename S::CFld>("constant field"); VH_CHECK(typename S::Acc(c).is_valid() && typename S::CAcc(c).is_valid() && typename S::Fld(c).is_valid() && typename S::CFld(c).is_valid(), "accessor or field with a container claims to be invalid"); }
template<class M, class Tag> struct Stores { typedef typename viennagrid::result_of::element<M, Tag>::type E; 
  Store<E, typename viennagrid::result_of::accessor_container<E, double, viennagrid::std_vector_tag>::type, double> a; Store<E, typename viennagrid::result_of::accessor_container<E, std::string, viennagrid::std_deque_tag>::type, std::string> b; Store<E, typename viennagrid::result_of::accessor_container<E, int, viennagrid::std_map_tag>::type, int> d; Store<E, typename viennagrid::result_of::accessor_container<E, double, viennagrid::std_deque_tag>::type, double> e;
  void ops(Src & s, M & mesh, int n) { auto els = viennagrid::elements<Tag>(mesh); if (!els.size()) return; for (int q = 0; q < n; ++q) { E & x = els[(size_t)s.draw(els.size())]; int k = (int)s.draw(4); bool w = s.chance(45), hd = s.chance(50); if (k == 0) { if (w) a.write(s, x, hd); else a.check(s, x, hd); } else if (k == 1) { if (w) b.write(s, x, hd); else b.check(s, x, hd); } else if (k == 2) { if (w) d.write(s, x, hd); else d.check(s, x, hd); } else { if (w) e.write(s, x, hd); else e.check(s, x, hd); } } }
  void all(Src & s, M & mesh) { auto els = viennagrid::elements<Tag>(mesh); for (size_t i = 0; i < els.size(); ++i) { a.check(s, els[i], i % 2); b.check(s, els[i], i % 2); d.check(s, els[i], i % 2); e.check(s, els[i], i % 2); } }
  void setup(Src & s) { a.def = s.real(1.0); b.def = "default"; d.def = -7; e.def = 42; validity<E, std::vector<double>, double>(); validity<E, std::deque<std::string>, std::string>(); validity<E, typename viennagrid::result_of::accessor_container<E, int, viennagrid::std_map_tag>::type, int>(); } };
template<class M> void run_data(Src & s, Case & c) { typedef typename Types<M>::CellTag T; typedef typename viennagrid::result_of::facet_tag<M>::type F; RefMesh r = combinatorial(s, Topo<T>::nv, (int)Types<M>::Point::dim, (int)Topo<T>::nv + 6, 6); describe(c.desc, r); M mesh; auto vh = add_vertices(mesh, r); size_t next = 0; std::set<Cell> seen;
  Stores<M, viennagrid::vertex_tag> sv; Stores<M, viennagrid::line_tag> se; Stores<M, T> sc; Stores<M, F> sf; sv.setup(s); se.setup(s); sc.setup(s); sf.setup(s);
  typename viennagrid::result_of::default_point_accessor<M>::type pa = viennagrid::default_point_accessor(mesh); std::vector<Pt> pos = r.pts; long rounds = s.range(1, 10);
  for (long q = 0; q < rounds; ++q) { switch (s.draw(6)) { case 0: if (next < r.cells.size()) { Cell k = r.cells[next++]; if (seen.insert(sorted(k)).second) add_cell(mesh, vh, k); } break; case 1: sv.ops(s, mesh, 4); break; case 2: se.ops(s, mesh, 4); break; case 3: sc.ops(s, mesh, 4); break; case 4: sf.ops(s, mesh, 4); break; default: { size_t i = (size_t)s.draw(r.pts.size()); auto vs_ = viennagrid::vertices(mesh); Pt p; for (size_t d = 0; d < pos[i].size(); ++d) p.push_back(s.real(1.0)); pa(vs_[i]) = to_point<typename Types<M>::Point>(p); pos[i] = p; } } }
  sv.all(s, mesh); se.all(s, mesh); sc.all(s, mesh); sf.all(s, mesh); auto vs_ = viennagrid::vertices(mesh); for (size_t i = 0; i < pos.size(); ++i) { VH_CHECK(from_point(viennagrid::point(mesh, vs_[i])) == pos[i] && from_point(pa.at(vs_[i])) == pos[i] && pa.find(vs_[i]) == &pa(vs_[i]), "point of vertex " << i); }
  c.hit(rounds >= 3 && !r.cells.empty()); }
// ---- transfer of quantities ----
struct IdFilter { unsigned mask; bool all; std::vector<int> * calls; template<class E> bool operator()(E const & e) const { return all || ((mask >> (e.id().get() % 16)) & 1); } };
struct Avg { int * calls; template<class C> std::string operator()(C const & v) const { ++*calls; std::multiset<double> m(v.begin(), v.end()); std::ostringstream o; o.precision(17); for (double x : m) o << x << ";"; return o.str(); } };
struct Set { std::map<int, std::vector<std::string> > * got; template<class E> void operator()(E const & e, std::string const & v) const { (*got)[(int)e.id().get()].push_back(v); } };
template<class M> struct Inc { // incidence by vertex sets from the reference boundary of each element
  template<class Big, class Dom> static std::map<int, std::vector<int> > of(Dom const & dom) { std::map<int, std::vector<int> > r; auto es = viennagrid::elements<Big>(dom); for (auto it = es.begin(); it != es.end(); ++it) r[(int)(*it).id().get()] = vids(*it); return r; } };
template<class Tag> std::set<Cell> parts(Cell const & c, int d) { std::set<Cell> r; if (c.size() == 1) return r; for (auto const & b : boundary<Tag>(c, d)) r.insert(sorted(b)); return r; }
template<class S, class D, bool up> struct Big { typedef S type; typedef D small; }; template<class S, class D> struct Big<S, D, true> { typedef D type; typedef S small; };
template<class M, class S, class D, class Dom> void transfer(Src & s, Case & c, M const & mesh, Dom const & dom, std::string const & what) { const int sd = S::dim, dd = D::dim; typedef Big<S, D, (S::dim < D::dim)> B; typedef typename viennagrid::result_of::element<M, S>::type SE;
  std::deque<double> src; auto sall = viennagrid::elements<S>(mesh); for (size_t i = 0; i < sall.size(); ++i) src.push_back(s.real(1.0)); IdFilter fs, fd; fs.all = s.chance(40); fd.all = s.chance(40); fs.mask = (unsigned)s.draw(65536); fd.mask = (unsigned)s.draw(65536); int calls = 0; Avg av; av.calls = &calls; std::map<int, std::vector<std::string> > got; Set set; set.got = &got;
  auto acc = viennagrid::make_field<SE>(src); if (fs.all && fd.all) viennagrid::quantity_transfer<S, D>(dom, acc, set, av, viennagrid::true_functor(), viennagrid::true_functor()); else viennagrid::quantity_transfer<S, D>(dom, acc, set, av, fs, fd);
  std::map<Cell, int> small; { auto es = viennagrid::elements<typename B::small>(mesh); for (auto it = es.begin(); it != es.end(); ++it) small[sorted(vids(*it))] = (int)(*it).id().get(); }
  auto pass = [](IdFilter const & f, int id) { return f.all || ((f.mask >> (id % 16)) & 1); }; std::map<int, std::multiset<double> > want;
  auto big = Inc<M>::template of<typename B::type>(dom); for (auto const & b : big) { if (sd < dd) { if (!pass(fd, b.first)) continue; want[b.first]; } else if (!pass(fs, b.first)) continue; for (auto const & k : parts<typename B::type>(b.second, std::min(sd, dd))) { VH_CHECK(small.count(k), "element missing"); int id = small[k]; if (sd < dd) { if (pass(fs, id)) want[b.first].insert(src[(size_t)id]); } else if (pass(fd, id)) want[id].insert(src[(size_t)b.first]); } }
  for (auto const & g : got) { VH_CHECK(want.count(g.first), what << ": value stored on element " << g.first); VH_EQ(g.second.size(), (size_t)1, what + ": values stored on element " + std::to_string(g.first)); }
  for (auto const & w : want) { if (w.second.empty() && !got.count(w.first)) continue; VH_CHECK(got.count(w.first), what << ": no value stored on element " << w.first); std::ostringstream o; o.precision(17); for (double x : w.second) o << x << ";"; VH_EQ(got[w.first][0], o.str(), what + ": values averaged for element " + std::to_string(w.first)); }
  c.hit(want.size() > 1); }
template<class M> struct Pairs; 
template<class M, class Tag, int td> struct AllPairs;
template<class M, class T> struct AllPairs<M, T, 1> { template<class Dom> static void go(Src & s, Case & c, M const & m, Dom const & d, std::string const & w) { typedef viennagrid::vertex_tag V; transfer<M, T, V>(s, c, m, d, w + " cells to vertices"); transfer<M, V, T>(s, c, m, d, w + " vertices to cells"); } };
template<class M, class T> struct AllPairs<M, T, 2> { template<class Dom> static void go(Src & s, Case & c, M const & m, Dom const & d, std::string const & w) { typedef viennagrid::vertex_tag V; typedef viennagrid::line_tag L; transfer<M, T, V>(s, c, m, d, w + " cells to vertices"); transfer<M, V, T>(s, c, m, d, w + " vertices to cells"); transfer<M, T, L>(s, c, m, d, w + " cells to edges"); transfer<M, L, T>(s, c, m, d, w + " edges to cells"); transfer<M, L, V>(s, c, m, d, w + " edges to vertices"); transfer<M, V, L>(s, c, m, d, w + " vertices to edges"); } };
template<class M, class T> struct AllPairs<M, T, 3> { template<class Dom> static void go(Src & s, Case & c, M const & m, Dom const & d, std::string const & w) { typedef viennagrid::vertex_tag V; typedef viennagrid::line_tag L; typedef typename viennagrid::result_of::facet_tag<M>::type F; AllPairs<M, T, 2>::go(s, c, m, d, w); transfer<M, T, F>(s, c, m, d, w + " cells to facets"); transfer<M, F, T>(s, c, m, d, w + " facets to cells"); transfer<M, F, V>(s, c, m, d, w + " facets to vertices"); transfer<M, V, F>(s, c, m, d, w + " vertices to facets"); transfer<M, F, L>(s, c, m, d, w + " facets to edges"); transfer<M, L, F>(s, c, m, d, w + " edges to facets"); } };
template<class M> void run_transfer(Src & s, Case & c) { typedef typename Types<M>::CellTag T; RefMesh r; if (s.chance(50)) { GridOpt o; o.isolated = s.chance(40); r = grid<T>(s, (int)Types<M>::Point::dim, o); } else { r = combinatorial(s, Topo<T>::nv, (int)Types<M>::Point::dim, (int)Topo<T>::nv + 5, 7); std::set<Cell> seen; std::vector<Cell> k; for (auto & q : r.cells) if (seen.insert(sorted(q)).second) k.push_back(q); r.cells = k; }
  describe(c.desc, r); M mesh; build(mesh, r); AllPairs<M, T, Topo<T>::tdim>::go(s, c, mesh, mesh, "mesh:"); typename viennagrid::result_of::segmentation<M>::type sg(mesh); auto sh = sg.make_segment(); auto cs = viennagrid::cells(mesh); for (size_t i = 0; i < r.cells.size(); ++i) if (s.chance(60)) viennagrid::add(sh, cs.handle_at(i)); AllPairs<M, T, Topo<T>::tdim>::go(s, c, mesh, sh, "segment:"); }
