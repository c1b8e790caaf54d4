#include "c24.hpp"
#include "viennagrid/io/netgen_reader.hpp"
namespace {
template<class M> void run(Src & s, Case & c) {
  typedef Types<M> T; typedef typename viennagrid::result_of::segmentation<M>::type Sgn; typedef typename viennagrid::result_of::segment_handle<Sgn>::type SH;
  int dim = (int)viennagrid::result_of::static_size<typename T::Point>::value, nv = (int)Topo<typename T::CellTag>::nv; mf::Netgen f = mf::netgen(s, dim, nv); std::string file = c.scratch + "/a.mesh"; mf::write(file, f.text); c.desc << f.pts.size() << " vertices, " << f.cells.size() << " cells"; 
  std::set<int> ids(f.seg.begin(), f.seg.end()); c.hit(f.cells.size() >= 2); if (ids.size() > 1) c.label("several segments");
  M m; Sgn sg(m); viennagrid::io::netgen_reader rd; bool plain = s.chance(20); if (plain) rd(m, file); else rd(m, sg, file);
  auto vs = viennagrid::vertices(m); VH_EQ(vs.size(), f.pts.size(), "number of vertices"); std::map<typename T::Vertex const *, int> pos; for (size_t i = 0; i < f.pts.size(); ++i) { std::ostringstream o; o << "vertex " << i; VH_EQ((long)vs[i].id().get(), (long)i, o.str() << " id"); same_point(from_point(viennagrid::point(vs[i])), f.pts[i], o.str()); pos[&vs[i]] = (int)i; }
  auto cs = viennagrid::cells(m); VH_EQ(cs.size(), f.cells.size(), "number of cells");
  for (size_t i = 0; i < f.cells.size(); ++i) { VH_EQ((long)cs[i].id().get(), (long)i, "cell id"); auto cv = viennagrid::vertices(cs[i]); VH_EQ((int)cv.size(), nv, "vertices of a cell"); for (int k = 0; k < nv; ++k) VH_EQ(pos[&cv[(size_t)k]], f.cells[i][(size_t)k], "cell " << i << " vertex " << k); }
  std::set<std::vector<int> > facets; for (auto const & q : f.cells) for (auto const & b : boundary<typename T::CellTag>(q, (int)Topo<typename T::CellTag>::tdim - 1)) facets.insert(sorted(b)); if ((int)Topo<typename T::CellTag>::tdim > 1) VH_EQ(viennagrid::facets(m).size(), facets.size(), "number of facets");
  if (plain) return;
  VH_EQ(sg.size(), ids.size(), "number of segments");
  for (int g : ids) {
    VH_CHECK(sg.segment_present(g), "segment " << g << " missing"); SH h = sg(g); std::vector<size_t> want; std::set<int> wv; for (size_t i = 0; i < f.cells.size(); ++i) if (f.seg[i] == g) { want.push_back(i); wv.insert(f.cells[i].begin(), f.cells[i].end()); }
    auto hc = viennagrid::cells(h); VH_EQ(hc.size(), want.size(), "number of cells of segment " << g); for (size_t i = 0; i < want.size(); ++i) VH_CHECK(&hc[i] == &cs[want[i]], "segment " << g << " cell " << i << " is cell " << hc[i].id().get() << " instead of " << want[i]);
    std::set<int> gv; for (auto const & v : viennagrid::vertices(h)) gv.insert(pos[&v]); VH_CHECK(gv == wv, "vertices of segment " << g);
    for (size_t i = 0; i < f.cells.size(); ++i) VH_EQ(viennagrid::is_in_segment(h, cs[i]), f.seg[i] == g, "cell " << i << " in segment " << g); }
}
}
