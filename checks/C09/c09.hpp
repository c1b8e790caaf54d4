#include "../C01/c01.hpp"
#include "seghist.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/mesh/segmented_mesh.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#include <memory>

// (a) pool of meshes under copy construction, assignment, self assignment, clearing, mutation and destruction
template<class M> struct Obj { std::unique_ptr<M> mesh; Model<M> m; std::map<std::vector<int>, int> ids[3]; Obj() : mesh(new M) {} };
template<class M> void rebind(Obj<M> & o) {
  M & mesh = *o.mesh; o.m.vh.clear(); o.m.ch.clear();
  VH_EQ(viennagrid::vertices(mesh).size(), o.m.pts.size(), "number of vertices of the copy"); VH_EQ(viennagrid::cells(mesh).size(), o.m.cells.size(), "number of cells of the copy");
  for (size_t i = 0; i < o.m.pts.size(); ++i) o.m.vh.push_back(viennagrid::vertices(mesh).handle_at(i));
  for (size_t i = 0; i < o.m.cells.size(); ++i) o.m.ch.push_back(viennagrid::cells(mesh).handle_at(i));
}
template<class Tag, class M> std::map<std::vector<int>, int> idmap(M const & mesh) { std::map<std::vector<int>, int> r; typedef typename viennagrid::result_of::const_element_range<M, Tag>::type R; R rr(mesh); for (typename viennagrid::result_of::iterator<R>::type it = rr.begin(); it != rr.end(); ++it) r[sorted(vids(*it))] = (int)(*it).id().get(); return r; }
template<class M, bool FULL> struct Ids { static void check(M const & a, M const & b) { VH_CHECK(idmap<typename Types<M>::CellTag>(a) == idmap<typename Types<M>::CellTag>(b), "cell ids of the copy differ"); } };
template<class M> struct Ids<M, true> { static void check(M const & a, M const & b) { Ids<M, false>::check(a, b); typedef typename Types<M>::CellTag::facet_tag F; VH_CHECK(idmap<F>(a) == idmap<F>(b), "facet ids of the copy differ"); VH_CHECK(idmap<viennagrid::line_tag>(a) == idmap<viennagrid::line_tag>(b), "edge ids of the copy differ"); } };
template<class M, bool FULL> struct Query { static void run(M &, Model<M> const &) {} };
template<class M> struct Query<M, true> { static void run(M & mesh, Model<M> const & m) {
  typedef typename Types<M>::CellTag T; typedef typename T::facet_tag F; const int TD = Topo<T>::tdim; std::map<Cell, int> cnt; std::map<int, KeySet> vc; for (auto const & q : m.cells) { for (auto const & f : boundary<T>(q, TD - 1)) ++cnt[sorted(f)]; for (int v : q) vc[v].insert(sorted(q)); }
  for (auto & e : viennagrid::elements<F>(mesh)) { Cell k = sorted(vids(e)); VH_CHECK(viennagrid::is_boundary(mesh, e) == (cnt[k] % 2 == 1), "is_boundary of facet " << str(k) << " wrong"); }
  for (size_t i = 0; i < m.vh.size(); ++i) { KeySet got; for (auto & q : viennagrid::coboundary_elements<viennagrid::vertex_tag, T>(mesh, m.vh[i])) got.insert(sorted(vids(q))); VH_CHECK(got == vc[(int)i], "cells around vertex " << i << " wrong"); }
} };
template<class M, bool FULL> void pool(vh::Src & s, vh::Case & c) {
  typedef typename Types<M>::CellTag T; const int TD = Topo<T>::tdim; std::vector<Obj<M> > p(1 + (size_t)s.draw(2)); long ops = s.size(3, 30); int copies = 0, later = 0;
  if (s.chance(30)) { GridOpt o; o.maxn = TD == 3 ? 2 : 4; RefMesh r = grid<T>(s, Types<M>::Point::dim, o); p[0].m.pts = r.pts; p[0].m.vh = add_vertices(*p[0].mesh, r); for (auto const & q : r.cells) { p[0].m.cellkeys.insert(sorted(q)); op_cell(*p[0].mesh, *p[0].mesh, p[0].m, q); } }
  for (long i = 0; i < ops; ++i) {
    size_t a = (size_t)s.draw(p.size()), b = (size_t)s.draw(p.size());
    switch (s.draw(12)) {
      case 0: if (p.size() < 5) { Obj<M> n; n.mesh.reset(new M(*p[a].mesh)); n.m = p[a].m; rebind(n); Ids<M, FULL>::check(*p[a].mesh, *n.mesh); p.push_back(std::move(n)); c.desc << "copy" << a << " "; ++copies; } break;
      case 1: *p[b].mesh = *p[a].mesh; if (a != b) p[b].m = p[a].m; rebind(p[b]); Ids<M, FULL>::check(*p[a].mesh, *p[b].mesh); c.desc << "assign" << a << ">" << b << " "; ++copies; break;
      case 2: if (s.chance(30)) { if (s.chance(50)) p[a].mesh->clear(); else viennagrid::clear(*p[a].mesh); p[a].m = Model<M>(); c.desc << "clear" << a << " "; } break;
      case 3: if (p.size() > 1 && s.chance(50)) { p.erase(p.begin() + (long)a); c.desc << "destroy" << a << " "; } break;
      case 4: Direct<M, TD, FULL>::run(s, *p[a].mesh, p[a].m); break;
      case 5: Query<M, FULL>::run(*p[a].mesh, p[a].m); break;
      case 6: if (!p[a].m.pts.empty()) { size_t v = (size_t)s.draw(p[a].m.pts.size()); Pt q; for (int d = 0; d < (int)Types<M>::Point::dim; ++d) q.push_back(s.real()); viennagrid::point(*p[a].mesh, p[a].m.vh[v]) = to_point<typename Types<M>::Point>(q); p[a].m.pts[v] = q; c.desc << "move" << a << "." << v << " "; if (copies) ++later; } break;
      default: { Cell q; if (choose_cell(s, *p[a].mesh, p[a].m, q)) { op_cell(*p[a].mesh, *p[a].mesh, p[a].m, q); c.desc << "cell" << a << str(q) << " "; if (copies) ++later; } }
    }
    if (s.chance(25)) for (auto & o : p) Verify<M, TD, FULL>::run(*o.mesh, o.m);
  }
  for (auto & o : p) { Verify<M, TD, FULL>::run(*o.mesh, o.m); Query<M, FULL>::run(*o.mesh, o.m); }
  c.hit(copies && later);
}

// (b) copies of selected cells, with and without segments
struct Pick { std::set<int> const * ids; template<class C> bool operator()(C const & c) const { return ids->count((int)c.id().get()) > 0; } };
template<class M> struct Image {                                  // expected copy: vertices in order of first use
  Model<M> m; std::map<int, int> vmap; std::vector<int> cellmap;
  void add(std::vector<Pt> const & pts, Cell const & q) { Cell r; for (int v : q) { if (!vmap.count(v)) { int n = (int)m.pts.size(); vmap[v] = n; m.pts.push_back(pts[(size_t)v]); } r.push_back(vmap[v]); } m.cells.push_back(r); }
};
template<class M> void compare_image(M & mesh, Image<M> & im) { const int TD = Topo<typename Types<M>::CellTag>::tdim; Obj<M> o; o.m = im.m; o.m.vh.clear(); o.m.ch.clear(); VH_EQ(viennagrid::vertices(mesh).size(), im.m.pts.size(), "vertices of the copy"); VH_EQ(viennagrid::cells(mesh).size(), im.m.cells.size(), "cells of the copy"); for (size_t i = 0; i < im.m.pts.size(); ++i) o.m.vh.push_back(viennagrid::vertices(mesh).handle_at(i)); for (size_t i = 0; i < im.m.cells.size(); ++i) o.m.ch.push_back(viennagrid::cells(mesh).handle_at(i)); Verify<M, TD, true>::run(mesh, o.m); }
template<class M, class Sgn> void compare_segments(seghist::World<M> const & w, Sgn & sgn, std::set<int> const & pick, Image<M> & im) {
  typedef typename Types<M>::CellTag T; const int TD = Topo<T>::tdim; VH_EQ(sgn.size(), w.sgn.size(), "number of segments of the copy");
  for (typename Sgn::iterator it = sgn.begin(); it != sgn.end(); ++it) {
    int id = (int)(*it).id(); VH_CHECK(id >= 0 && id < (int)w.seg.size(), "unexpected segment " << id); VH_EQ((*it).name(), w.sgn[id].name(), "name of copied segment"); VH_EQ((int)sgn[(*it).name()].id(), id, "segment resolved by name");
    std::vector<Cell> cs; size_t j = 0; for (size_t i = 0; i < w.cells.size(); ++i) if (pick.count((int)i)) { if (w.seg[(size_t)id].cells.count((int)i)) cs.push_back(im.m.cells[j]); ++j; }
    SegVerify<M, TD, true>::run(*it, cs);
  }
}
// copy_segmentation: the segments of a mesh carried over to a copy of that mesh
template<class W, int D> struct SameSegments { static void run(W const & w, typename W::Sgn & d) {
  SameSegments<W, D - 1>::run(w, d); typedef typename seghist::TagOf<typename W::CT, D>::type ET;
  for (size_t t = 0; t < w.seg.size(); ++t) { bool any = false; for (int x = 0; x <= (int)W::TD; ++x) any |= !w.seg[t].el[x].empty(); if (!any) continue; VH_CHECK(d.segment_present((int)t), "segment " << t << " is missing in the copy"); compare(walk<ET>(d.get_segment((int)t), "copied segment"), w.seg[t].el[D], "element of the copied segment"); } } };
template<class W> struct SameSegments<W, -1> { static void run(W const &, typename W::Sgn &) {} };
template<class W> void copied_segmentation(vh::Src & s, W & w) {
  typedef typename W::M M; M cm; if (s.chance(50)) cm = w.mesh; else { M t(w.mesh); cm = t; } typename W::Sgn cs(cm); if (s.chance(30)) cs.make_segment(); viennagrid::copy_segmentation(w.mesh, w.sgn, cm, cs);
  SameSegments<W, W::TD>::run(w, cs); VH_CHECK(cs.size() <= w.seg.size() + 1, "copy_segmentation made " << cs.size() << " segments out of " << w.seg.size());
  for (typename W::Sgn::iterator it = cs.begin(); it != cs.end(); ++it) for (auto & q : viennagrid::cells(*it)) { bool mine = false; for (auto & x : viennagrid::cells(cm)) mine |= &x == &q; VH_CHECK(mine, "a segment of the copy refers to cells of another mesh"); }
}
template<class M> void selective(vh::Src & s, vh::Case & c) {
  typedef seghist::World<M> W; typedef typename W::Sgn Sgn; W w; w.start(s, Topo<typename W::CT>::tdim == 3 ? 2 : 3, 3, 40); std::unique_ptr<W> pw;
  for (int i = 0; i < (int)w.seg.size(); ++i) if (s.chance(40)) { char n[3] = { (char)('a' + (char)i), (char)('0' + (char)s.draw(4)), 0 }; w.sgn[i].set_name(s.chance(20) && i == 0 ? "1x" : n); }
  if (s.chance(25)) { for (int i = 0; i < (int)w.seg.size(); ++i) { std::string x = "z"; x += (char)('0' + i); w.sgn[i].set_name(x); } std::vector<int> p; for (int i = 0; i < (int)w.seg.size(); ++i) p.push_back(i); s.shuffle(p); for (int i = 0; i < (int)w.seg.size(); ++i) if (s.chance(75)) { std::ostringstream x; x << p[(size_t)i]; w.sgn[i].set_name(x.str()); } c.label("names are ids of other segments"); }
  long ops = s.size(1, 20); for (long i = 0; i < ops; ++i) w.step(s);
  std::set<int> pick; bool all = s.chance(30); for (size_t i = 0; i < w.cells.size(); ++i) if (all || s.chance(60)) pick.insert((int)i);
  Image<M> im; for (size_t i = 0; i < w.cells.size(); ++i) if (pick.count((int)i)) im.add(w.pts, w.cells[i]);
  Pick f; f.ids = &pick; w.describe(c.desc); c.desc << " pick " << pick.size(); c.hit(pick.size() >= 2 && im.m.pts.size() < w.pts.size());
  if (s.chance(25)) { copied_segmentation(s, w); c.label("copy_segmentation"); return; }
  M dst; Sgn dsgn(dst);
  if (s.chance(50)) { std::vector<typename Types<M>::VH> h; for (size_t i = 0; i < Topo<typename W::CT>::nv; ++i) { Pt p((size_t)Types<M>::Point::dim, (double)i); h.push_back(viennagrid::make_vertex(dst, to_point<typename Types<M>::Point>(p))); } if (s.chance(50)) { typename W::SH sh = dsgn.make_segment(); if (s.chance(50)) dsgn.get_make_segment("a1"); viennagrid::make_cell(sh, h.begin(), h.end()); } else viennagrid::make_cell(dst, h.begin(), h.end()); c.label("target had content"); }
  int how = (int)s.draw(4);
  if (how == 0) { M plain; viennagrid::copy(w.mesh, plain, f); compare_image(plain, im); viennagrid::copy(w.mesh, plain, f); compare_image(plain, im); }
  else if (how == 1 || !all) { viennagrid::copy(w.mesh, w.sgn, dst, dsgn, f); compare_image(dst, im); compare_segments(w, dsgn, pick, im); if (s.chance(50)) { viennagrid::copy(w.mesh, w.sgn, dst, dsgn, f); compare_image(dst, im); compare_segments(w, dsgn, pick, im); } }
  else { // segmented_mesh: assignment, copy construction, self assignment, clear
    typedef viennagrid::segmented_mesh<M, Sgn> SM; std::unique_ptr<SM> a(new SM); viennagrid::copy(w.mesh, w.sgn, a->mesh, a->segmentation, viennagrid::true_functor()); SM b(*a), d; if (s.chance(50)) { d.segmentation.get_make_segment("q"); d = b; } else d = *a; if (s.chance(40)) { SM & r = d; d = r; }
    if (s.chance(60)) { if (s.chance(50)) a->clear(); else a.reset(); }
    compare_image(b.mesh, im); compare_segments(w, b.segmentation, pick, im); compare_image(d.mesh, im); compare_segments(w, d.segmentation, pick, im);
    d.clear(); VH_EQ(viennagrid::vertices(d.mesh).size(), (size_t)0, "vertices after clear"); VH_EQ(viennagrid::cells(d.mesh).size(), (size_t)0, "cells after clear"); VH_EQ(d.segmentation.size(), (size_t)0, "segments after clear"); d = b; compare_image(d.mesh, im); compare_segments(w, d.segmentation, pick, im);
  }
}

// (c) copying elements into a mesh which may already hold vertices, with a tolerance
template<class M> void elementwise(vh::Src & s, vh::Case & c) {
  typedef typename Types<M>::CellTag T; typedef typename Types<M>::Point P; const int TD = Topo<T>::tdim; GridOpt go; go.maxn = TD == 3 ? 2 : 3; RefMesh r = grid<T>(s, P::dim, go); std::set<Pt> uniq(r.pts.begin(), r.pts.end());
  M src; Model<M> sm; sm.pts = r.pts; sm.vh = add_vertices(src, r); for (auto const & q : r.cells) op_cell(src, src, sm, q);
  double tol = s.chance(50) ? -1.0 : 1e-12; M dst; Image<M> im; std::vector<size_t> pre; size_t npre = s.chance(60) ? (size_t)s.draw(r.pts.size()) : 0;
  for (size_t i = 0; i < npre; ++i) { size_t v = (size_t)s.draw(r.pts.size()); if (std::count(pre.begin(), pre.end(), v)) continue; pre.push_back(v); viennagrid::make_vertex(dst, to_point<P>(r.pts[v])); im.m.pts.push_back(r.pts[v]); }
  std::vector<int> order; for (size_t i = 0; i < r.cells.size(); ++i) order.push_back((int)i); s.shuffle(order); order.resize((size_t)s.draw(order.size() + 1)); int how = (int)s.draw(4); if (how == 0) { std::sort(order.begin(), order.end()); if (!order.empty()) { int f = order[0]; int n = (int)order.size(); order.clear(); for (int i = 0; i < n; ++i) if (f + i < (int)r.cells.size()) order.push_back(f + i); } }
  bool merges = tol > 0; if (merges) for (size_t i = 0; i < pre.size(); ++i) im.vmap[(int)pre[i]] = (int)i;
  bool dup = uniq.size() != r.pts.size(); if (dup) { c.label("coincident vertices"); return; }
  for (int i : order) { if (how == 3 && !merges) im.vmap.clear(); im.add(r.pts, r.cells[(size_t)i]); }       // single copies do not remember vertices
  std::vector<typename Types<M>::CH> hs; for (int i : order) hs.push_back(sm.ch[(size_t)i]);
  typedef typename viennagrid::result_of::cell_range<M>::type R; R cr(src);
  if (how == 0) { typename viennagrid::result_of::iterator<R>::type b = cr.begin(); std::advance(b, order.empty() ? 0 : order[0]); typename viennagrid::result_of::iterator<R>::type e = b; std::advance(e, (long)order.size()); if (tol < 0 && s.chance(50)) viennagrid::copy_elements(b, e, dst); else viennagrid::copy_elements(b, e, dst, tol); }
  else if (how == 1) { if (tol < 0 && s.chance(50)) viennagrid::copy_elements_by_handle(src, hs.begin(), hs.end(), dst); else viennagrid::copy_elements_by_handle(src, hs.begin(), hs.end(), dst, tol); }
  else if (how == 2) { viennagrid::vertex_copy_map<M, M> vm(dst); for (auto h : hs) { auto n = tol < 0 && s.chance(50) ? vm.copy_element(viennagrid::dereference_handle(src, h)) : vm.copy_element(viennagrid::dereference_handle(src, h), tol); VH_CHECK(&viennagrid::dereference_handle(dst, n) == &viennagrid::cells(dst)[viennagrid::cells(dst).size() - 1], "returned handle"); } }
  else for (auto h : hs) { auto const & e = viennagrid::dereference_handle(src, h); auto n = tol < 0 && s.chance(50) ? viennagrid::copy_element(e, dst) : viennagrid::copy_element(e, dst, tol); VH_CHECK(&viennagrid::dereference_handle(dst, n) == &viennagrid::cells(dst)[viennagrid::cells(dst).size() - 1], "returned handle"); }
  c.desc << "how " << how << " tol " << tol << " pre " << pre.size() << " cells"; for (int i : order) put(c.desc, r.cells[(size_t)i]); c.hit(order.size() >= 2); compare_image(dst, im);
  const int F = TD; Model<M> check = sm; Verify<M, F, true>::run(src, check);
}
#define C09_ALL(tag, M) VH_REG(a, "pool-" tag, (pool<M, true>), 1.0); VH_REG(b, "select-" tag, selective<M>, 1.0); VH_REG(d, "elements-" tag, elementwise<M>, 0.6);
