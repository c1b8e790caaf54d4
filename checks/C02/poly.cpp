#include "c02.hpp"
template<class M> void polygons(vh::Src & s, vh::Case & c) {
  typedef Types<M> T; M mesh; std::vector<typename T::VH> vh; long n = s.size(3, 12); size_t flipped = 0;
  for (long i = 0; i < n; ++i) { Pt p; for (int d = 0; d < (int)T::Point::dim; ++d) p.push_back(s.real()); vh.push_back(viennagrid::make_vertex(mesh, to_point<typename T::Point>(p))); }
  std::vector<Cell> ps; std::vector<typename T::CH> hs; std::set<std::vector<int> > keys;
  for (long k = s.size(1, 7); k > 0; --k) {
    Cell q; for (int v = 0; v < n; ++v) q.push_back(v); s.shuffle(q); q.resize((size_t)s.range(3, std::min<long>(n, 8))); if (!keys.insert(sorted(q)).second) continue;
    std::vector<typename T::VH> h; for (int v : q) h.push_back(vh[(size_t)v]); hs.push_back(viennagrid::make_element<viennagrid::polygon_tag>(mesh, h.begin(), h.end())); ps.push_back(q); put(c.desc, q); }
  for (size_t i = 0; i < ps.size(); ++i) {
    auto & e = viennagrid::dereference_handle(mesh, hs[i]); check_vertices(e, ps[i], "polygon");
    Tab r; for (size_t j = 0; j < ps[i].size(); ++j) r.push_back(std::vector<int>{ps[i][j], ps[i][(j + 1) % ps[i].size()]});
    check_host<viennagrid::line_tag>(e, r, "polygon edge");
    for (size_t k = 0; k < r.size(); ++k) if (vids(viennagrid::elements<viennagrid::line_tag>(e)[k]) != r[k]) ++flipped;
  }
  c.hit(flipped > 0);
}
VH_REG(p2, "polygon2", polygons<viennagrid::polygonal_2d_mesh>, 0.6);
VH_REG(p3, "polygon3", polygons<viennagrid::polygonal_3d_mesh>, 0.4);
