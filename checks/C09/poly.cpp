// polygon meshes: copies keep the vertices in order, edges and coordinates, and are independent
#include "c09.hpp"
namespace {
template<class M> void poly(vh::Src & s, vh::Case & c) {
  typedef Types<M> T; typedef viennagrid::polygon_tag PT; std::unique_ptr<M> mesh(new M); std::vector<typename T::VH> vh; std::vector<Pt> pts; long n = s.size(3, 12); for (long i = 0; i < n; ++i) { Pt p; for (int d = 0; d < (int)T::Point::dim; ++d) p.push_back(s.real()); pts.push_back(p); vh.push_back(viennagrid::make_vertex(*mesh, to_point<typename T::Point>(p))); }
  std::vector<Cell> polys; KeySet keys, edges; auto add = [&](M & m, std::vector<typename T::VH> const & h0, std::vector<Cell> & ps, KeySet & ed) { Cell all; for (int v = 0; v < n; ++v) all.push_back(v); s.shuffle(all); all.resize((size_t)s.range(3, std::min<long>(n, 8))); if (!keys.insert(sorted(all)).second) return; std::vector<typename T::VH> h; for (int v : all) h.push_back(h0[(size_t)v]); viennagrid::make_element<PT>(m, h.begin(), h.end()); ps.push_back(all); for (size_t j = 0; j < all.size(); ++j) ed.insert(sorted(Cell{all[j], all[(j + 1) % all.size()]})); put(c.desc, all); };
  long k = s.size(1, 6); for (long i = 0; i < k; ++i) add(*mesh, vh, polys, edges);
  auto check = [&](M const & m, std::vector<Cell> const & ps, KeySet const & ed, char const * what) { auto ve = walk<viennagrid::vertex_tag>(m, what); VH_EQ(ve.size(), pts.size(), what << " vertices"); auto e = walk<viennagrid::line_tag>(m, what); compare(e, ed, what); check_sharing<PT, viennagrid::vertex_tag>(m, ve, what); check_sharing<PT, viennagrid::line_tag>(m, e, what); check_sharing<viennagrid::line_tag, viennagrid::vertex_tag>(m, ve, what); std::multiset<Cell> a, b(ps.begin(), ps.end()); typedef typename viennagrid::result_of::const_element_range<M, PT>::type R; R r(m); for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { a.insert(vids(*it)); } VH_CHECK(a == b, what << ": polygons differ"); typedef typename viennagrid::result_of::const_vertex_range<M>::type VR; VR vr(m); for (typename viennagrid::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) VH_CHECK(from_point(viennagrid::point(*it)) == pts[(size_t)(*it).id().get()], what << ": coordinates"); };
  check(*mesh, polys, edges, "source"); M a(*mesh), b; std::vector<typename T::VH> ah; for (long i = 0; i < n; ++i) ah.push_back(viennagrid::vertices(a).handle_at((size_t)i));
  if (s.chance(50)) { viennagrid::make_vertex(b, to_point<typename T::Point>(pts[0])); } b = *mesh; std::vector<Cell> pa = polys, pb = polys; KeySet ea = edges, eb = edges; bool gone = s.chance(40); if (gone) mesh.reset(); size_t before = pa.size(); add(a, ah, pa, ea); c.hit(pa.size() > before && polys.size() >= 2); check(a, pa, ea, "copy"); check(b, pb, eb, "assigned"); if (!gone) { add(*mesh, vh, polys, edges); check(*mesh, polys, edges, "source"); check(a, pa, ea, "copy"); check(b, pb, eb, "assigned"); }
}
}
VH_REG(p2, "polygon2", poly<viennagrid::polygonal_2d_mesh>, 0.4);
VH_REG(p3, "polygon3", poly<viennagrid::polygonal_3d_mesh>, 0.3);
