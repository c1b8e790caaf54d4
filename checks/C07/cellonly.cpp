#include "c07.hpp"
// segmentations that know about cells only: membership of cells, the mesh keeps its boundary elements
template<class M> void cellonly(vh::Src & s, vh::Case & c) {
  typedef typename viennagrid::result_of::cell_only_segmentation<M>::type Sgn; typedef typename viennagrid::result_of::segment_handle<Sgn>::type SH; typedef typename Types<M>::CellTag CT;
  M mesh; Sgn sgn(mesh); GridOpt o; o.maxn = 3; RefMesh r = grid<CT>(s, (int)Types<M>::Point::dim, o); auto vs = add_vertices(mesh, r); std::vector<typename Types<M>::CH> ch; std::vector<std::set<int> > in((size_t)s.range(1, 4)); for (size_t i = 0; i < in.size(); ++i) sgn.make_segment();
  std::set<std::vector<int> > facets; long ops = s.size(2, 40); size_t over = 0, todo = 0;
  for (long i = 0; i < ops; ++i) {
    int t = (int)s.draw(in.size()); uint64_t op = s.draw(8);
    if (ch.empty() || (op < 3 && todo < r.cells.size())) { if (todo >= r.cells.size()) break; Cell q = r.cells[todo]; std::vector<typename Types<M>::VH> h; for (int v : q) h.push_back(vs[(size_t)v]); SH sh = sgn[t];
      if (s.chance(60)) { ch.push_back(viennagrid::make_cell(sh, h.begin(), h.end())); in[(size_t)t].insert((int)todo); c.desc << "C" << t << " "; } else { ch.push_back(viennagrid::make_cell(mesh, h.begin(), h.end())); c.desc << "C "; }
      for (auto const & f : boundary<CT>(q, (int)Topo<CT>::tdim - 1)) facets.insert(sorted(f)); ++todo; }
    else { size_t k = (size_t)s.draw(ch.size()); SH sh = sgn[t]; auto & e = viennagrid::dereference_handle(mesh, ch[k]);
      switch (op) {
        case 5: { std::vector<int> ids; for (size_t u = 0; u < in.size(); ++u) if (s.chance(50)) { ids.push_back((int)u); in[u].insert((int)k); } viennagrid::add(sgn, ids.begin(), ids.end(), ch[k]); c.desc << "M" << str(ids) << "," << k << " "; break; }
        case 6: case 7: if (in.size() < 6 && s.chance(20)) { sgn.make_segment(); in.push_back(std::set<int>()); c.desc << "S "; break; } // else fall through
        case 4: viennagrid::add(sh, e); in[(size_t)t].insert((int)k); c.desc << "A" << t << "," << k << " "; break;
        default: viennagrid::add(sh, ch[k]); in[(size_t)t].insert((int)k); c.desc << "A" << t << "," << k << " "; } }
    // checks
    VH_EQ(viennagrid::cells(mesh).size(), todo, "cells of the mesh"); VH_EQ(viennagrid::elements<typename viennagrid::result_of::facet_tag<M>::type>(mesh).size(), facets.size() + ((int)Topo<CT>::tdim == 1 ? r.pts.size() - facets.size() : 0), "facets of the mesh"); Sgn const & cs = sgn; std::set<int> un; VH_EQ((size_t)sgn.size(), in.size(), "segments");
    for (size_t u = 0; u < in.size(); ++u) { SH su = sgn[(int)u]; std::multiset<int> got; for (auto & q : viennagrid::cells(su)) got.insert((int)q.id().get()); std::multiset<int> want(in[u].begin(), in[u].end()); VH_CHECK(got == want, "cells of segment " << u << ": " << got.size() << " instead of " << want.size() << " or others"); un.insert(in[u].begin(), in[u].end()); SH const & cu = su; VH_EQ(viennagrid::cells(cu).size(), want.size(), "const cell range"); }
    { std::multiset<int> got; for (auto & q : viennagrid::cells(sgn)) got.insert((int)q.id().get()); VH_CHECK(got == std::multiset<int>(un.begin(), un.end()), "cells of the segmentation wrong"); }
    for (size_t k = 0; k < ch.size(); ++k) { auto const & e = viennagrid::dereference_handle(mesh, ch[k]); std::multiset<int> want, got; for (size_t u = 0; u < in.size(); ++u) { bool w = in[u].count((int)k) > 0; SH const su = sgn[(int)u]; VH_CHECK(viennagrid::is_in_segment(su, e) == w, "is_in_segment(" << u << ", " << k << ") should be " << w); if (w) want.insert((int)u); }
      auto ids = viennagrid::segment_ids(cs, e); for (auto it = ids.begin(); it != ids.end(); ++it) got.insert((int)*it); VH_CHECK(got == want, "segment_ids of cell " << k << " wrong"); if (want.size() > 1) ++over; }
  }
  c.hit(over > 0);
}
VH_REG(a, "cellonly_tri", cellonly<viennagrid::triangular_2d_mesh>, 1);
VH_REG(b, "cellonly_tet", cellonly<viennagrid::tetrahedral_3d_mesh>, 1);
VH_REG(d, "cellonly_line", cellonly<viennagrid::line_3d_mesh>, 1);
