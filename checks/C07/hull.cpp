#include "c07.hpp"
// orientation flag of triangles per segment (3d hull meshes)
static void hull(vh::Src & s, vh::Case & c) {
  typedef viennagrid::triangular_3d_mesh M; typedef viennagrid::result_of::oriented_3d_hull_segmentation<M>::type Sgn; typedef viennagrid::result_of::segment_handle<Sgn>::type SH;
  M mesh; Sgn sgn(mesh); GridOpt o; RefMesh r = grid<viennagrid::triangle_tag>(s, 3, o); auto vh_ = add_vertices(mesh, r); std::vector<Types<M>::CH> ch; std::vector<std::map<int, int> > info((size_t)s.range(1, 4)); for (size_t i = 0; i < info.size(); ++i) sgn.make_segment();
  for (auto const & q : r.cells) ch.push_back(add_cell(mesh, vh_, q));
  long ops = s.size(2, 40); size_t over = 0;
  for (long i = 0; i < ops; ++i) {
    int t = (int)s.draw(info.size()); size_t k = (size_t)s.draw(ch.size()); SH sh = sgn[t]; auto & e = viennagrid::dereference_handle(mesh, ch[k]);
    switch (s.draw(4)) {
      case 0: case 1: viennagrid::add(sh, e); if (!info[(size_t)t].count((int)k)) info[(size_t)t][(int)k] = 0; c.desc << "A" << t << "," << k << " "; break;
      case 2: { bool * f = viennagrid::segment_element_info(sh, e); VH_CHECK((f != 0) == (info[(size_t)t].count((int)k) > 0), "segment_element_info of triangle " << k << " in segment " << t << " present " << (f != 0)); if (f) { bool v = s.chance(50); *f = v; info[(size_t)t][(int)k] = v; c.desc << "W" << t << "," << k << "=" << v << " "; } break; }
      default: if (s.chance(30)) { viennagrid::erase(sh, e); info[(size_t)t].erase((int)k); c.desc << "E" << t << "," << k << " "; }
    }
    for (size_t u = 0; u < info.size(); ++u) { SH const su = sgn[(int)u]; for (size_t j = 0; j < ch.size(); ++j) { bool const * f = viennagrid::segment_element_info(su, viennagrid::dereference_handle(mesh, ch[j])); auto it = info[u].find((int)j); VH_CHECK((f != 0) == (it != info[u].end()), "segment_element_info presence of triangle " << j << " in segment " << u); if (f && it->second >= 0) { VH_CHECK(*f == (it->second == 1), "segment_element_info of triangle " << j << " in segment " << u << " changed"); ++over; } } }
  }
  c.hit(over > 3);
}
VH_REG(h, "hull", hull, 1);
