// polygons (2d/3d) and piecewise linear complexes: boundary storage of elements with dynamic layout
#include "topo.hpp"
using namespace topo;

template<class M> void polygons(vh::Src & s, vh::Case & c) {
  typedef Types<M> T; typedef viennagrid::polygon_tag PT;
  M mesh; std::vector<typename T::VH> vh; std::vector<Cell> polys; KeySet edges; std::vector<typename T::CH> ch;
  typedef typename viennagrid::result_of::segmentation<M>::type Sgn; typedef typename viennagrid::result_of::segment_handle<Sgn>::type SH; Sgn sgn(mesh);
  long nseg = s.size(0, 2); std::vector<KeySet> se((size_t)nseg), sv((size_t)nseg); std::vector<size_t> sc((size_t)nseg); for (long i = 0; i < nseg; ++i) sgn.make_segment();
  long n = s.size(3, 14); for (long i = 0; i < n; ++i) { Pt p; for (int d = 0; d < (int)T::Point::dim; ++d) p.push_back(s.real()); vh.push_back(viennagrid::make_vertex(mesh, to_point<typename T::Point>(p))); }
  long k = s.size(1, 8); std::set<std::vector<int> > keys;
  for (long i = 0; i < k; ++i) {
    Cell all; for (int v = 0; v < n; ++v) all.push_back(v); s.shuffle(all); all.resize((size_t)s.range(3, std::min<long>(n, 8)));
    if (!keys.insert(sorted(all)).second) continue;
    std::vector<typename T::VH> h; for (int v : all) h.push_back(vh[(size_t)v]);
    KeySet mine; for (size_t j = 0; j < all.size(); ++j) mine.insert(sorted(std::vector<int>{all[j], all[(j + 1) % all.size()]}));
    for (auto const & e : mine) if (edges.count(e)) c.hit();
    edges.insert(mine.begin(), mine.end());
    if (nseg && s.chance(50)) { size_t j = (size_t)s.draw((uint64_t)nseg); SH sh = sgn[(int)j]; ch.push_back(viennagrid::make_cell(sh, h.begin(), h.end())); se[j].insert(mine.begin(), mine.end()); for (int v : all) sv[j].insert(std::vector<int>(1, v)); ++sc[j]; }
    else ch.push_back(viennagrid::make_element<PT>(mesh, h.begin(), h.end()));
    polys.push_back(all); put(c.desc, all);
  }
  if (s.chance(30)) { int a = (int)s.draw((uint64_t)n), b = (int)s.draw((uint64_t)n); if (a != b) { viennagrid::make_line(mesh, vh[(size_t)a], vh[(size_t)b]); edges.insert(sorted(std::vector<int>{a, b})); } }
  auto ve = walk<viennagrid::vertex_tag>(mesh, "vertex"); VH_EQ(ve.size(), (size_t)n, "vertices");
  auto ed = walk<viennagrid::line_tag>(mesh, "edge"); compare(ed, edges, "polygon edge");
  VH_EQ(viennagrid::elements<PT>(mesh).size(), polys.size(), "polygons");
  check_sharing<PT, viennagrid::vertex_tag>(mesh, ve, "vertex of polygon"); check_sharing<PT, viennagrid::line_tag>(mesh, ed, "edge of polygon"); check_sharing<viennagrid::line_tag, viennagrid::vertex_tag>(mesh, ve, "vertex of edge");
  for (size_t i = 0; i < polys.size(); ++i) {
    auto const & e = viennagrid::dereference_handle(mesh, ch[i]);
    VH_CHECK(vids(e) == polys[i], "polygon " << i << " has vertices " << str(vids(e)) << " instead of " << str(polys[i]));
    auto w = walk<viennagrid::line_tag>(e, "edge of polygon"); KeySet x; for (size_t j = 0; j < polys[i].size(); ++j) x.insert(sorted(std::vector<int>{polys[i][j], polys[i][(j + 1) % polys[i].size()]})); compare(w, x, "edge of polygon");
  }
  for (size_t j = 0; j < (size_t)nseg; ++j) { auto const & sg = sgn[(int)j]; compare(walk<viennagrid::line_tag>(sg, "segment edge"), se[j], "segment edge"); compare(walk<viennagrid::vertex_tag>(sg, "segment vertex"), sv[j], "segment vertex"); VH_EQ(viennagrid::elements<PT>(sg).size(), sc[j], "segment polygons"); }
}
VH_REG(p2, "polygon2", polygons<viennagrid::polygonal_2d_mesh>, 0.6);
VH_REG(p3, "polygon3", polygons<viennagrid::polygonal_3d_mesh>, 0.4);

VH_SUB(plc, 0.6) {
  typedef viennagrid::plc_3d_mesh M; typedef Types<M> T; typedef viennagrid::plc_tag PT;
  typedef viennagrid::result_of::line_handle<M>::type LH; typedef viennagrid::result_of::plc_handle<M>::type PH;
  M mesh; std::vector<T::VH> vh; long n = s.size(2, 12);
  for (long i = 0; i < n; ++i) vh.push_back(viennagrid::make_vertex(mesh, T::Point(s.real(), s.real(), s.real())));
  std::vector<LH> lh; std::vector<std::vector<int> > lk; KeySet edges; long nl = s.size(1, 16);
  for (long i = 0; i < nl; ++i) { int a = (int)s.draw((uint64_t)n), b = (int)s.draw((uint64_t)n); if (a == b) continue; lh.push_back(viennagrid::make_line(mesh, vh[(size_t)a], vh[(size_t)b])); lk.push_back(sorted(std::vector<int>{a, b})); edges.insert(lk.back()); }
  struct P { KeySet l, v; std::vector<T::Point> holes; PH h; }; std::vector<P> ps; long np = s.size(1, 4); std::set<std::pair<KeySet, KeySet> > seen;
  KeySet used;
  for (long i = 0; i < np && !lh.empty(); ++i) {
    P p; std::vector<LH> ls; std::vector<T::VH> vs; long k = s.range(1, 6);
    for (long j = 0; j < k; ++j) { size_t x = (size_t)s.draw(lh.size()); ls.push_back(lh[x]); p.l.insert(lk[x]); for (int v : lk[x]) p.v.insert(std::vector<int>(1, v)); }
    int form = (int)s.draw(3);
    if (form >= 1) for (long j = s.range(0, 4); j > 0; --j) { int v = (int)s.draw((uint64_t)n); vs.push_back(vh[(size_t)v]); p.v.insert(std::vector<int>(1, v)); }
    if (form == 2) for (long j = s.range(0, 3); j > 0; --j) p.holes.push_back(T::Point(s.real(), s.real(), s.real()));
    if (!seen.insert(std::make_pair(p.l, p.v)).second) continue;
    for (auto const & q : ps) { KeySet const & ql = q.l; for (auto const & e : p.l) if (ql.count(e)) c.hit(); }
    if (form == 0) p.h = viennagrid::make_plc(mesh, ls.begin(), ls.end());
    else if (form == 1) p.h = viennagrid::make_plc(mesh, ls.begin(), ls.end(), vs.begin(), vs.end());
    else p.h = viennagrid::make_plc(mesh, ls.begin(), ls.end(), vs.begin(), vs.end(), p.holes.begin(), p.holes.end());
    ps.push_back(p); c.desc << "plc form" << form << " lines"; for (auto const & e : p.l) put(c.desc, e);
  }
  auto ve = walk<viennagrid::vertex_tag>(mesh, "vertex"); VH_EQ(ve.size(), (size_t)n, "vertices");
  auto ed = walk<viennagrid::line_tag>(mesh, "edge"); compare(ed, edges, "line");
  VH_EQ(viennagrid::elements<PT>(mesh).size(), ps.size(), "PLCs");
  check_sharing<PT, viennagrid::vertex_tag>(mesh, ve, "vertex of PLC"); check_sharing<PT, viennagrid::line_tag>(mesh, ed, "line of PLC");
  for (auto const & p : ps) {
    auto const & e = viennagrid::dereference_handle(mesh, p.h);
    compare(walk<viennagrid::line_tag>(e, "line of PLC"), p.l, "line of PLC"); compare(walk<viennagrid::vertex_tag>(e, "vertex of PLC"), p.v, "vertex of PLC");
    VH_EQ(viennagrid::hole_points(e).size(), p.holes.size(), "hole points"); for (size_t j = 0; j < p.holes.size(); ++j) VH_CHECK(from_point(viennagrid::hole_points(e)[j]) == from_point(p.holes[j]), "hole point changed");
  }
}
