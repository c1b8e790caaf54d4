#include "c26.hpp"
#include "viennagrid/io/netgen_reader.hpp"
namespace {
template<class M> void run(Src & s, Case & c) {
  Quiet q; typedef Types<M> T; typedef typename viennagrid::result_of::segmentation<M>::type Sgn; int dim = (int)T::Point::dim, nv = (int)Topo<typename T::CellTag>::nv; viennagrid::io::netgen_reader rd; std::string file = c.scratch + "/a.mesh"; long rounds = s.range(1, 3);
  for (long k = 0; k < rounds; ++k) {
    mf::Netgen f = mf::netgen(s, dim, nv, 6); M m; Sgn sg(m); bool plain = s.chance(30); auto read = [&](std::string const & n) { return rejects([&]() { if (plain) rd(m, n); else rd(m, sg, n); }); };
    switch (s.draw(5)) {
      case 0: VH_CHECK(read(no_file(s, c, ".mesh")), "a missing file is not reported"); c.label("missing"); break;
      case 1: { auto sp = spans(f.text, false); size_t need = 2 + f.pts.size() * (size_t)dim + f.cells.size() * (size_t)(nv + 1); size_t keep = (size_t)s.draw(std::min(need, sp.size())); std::string t = keep ? f.text.substr(0, sp[keep - 1].second) : ""; if (s.chance(50)) t += "\n"; c.desc << " cut after " << keep << "/" << need << " numbers"; mf::write(file, t); VH_CHECK(read(file), "a file that ends before the announced data is accepted"); c.hit(); c.label("truncated"); break; }
      case 2: { mf::write(file, f.text); VH_CHECK(!read(file), "a well-formed file is rejected"); VH_EQ(viennagrid::cells(m).size(), f.cells.size(), "number of cells"); break; }
      default: { mf::write(file, damage(s, f.text, false, c.desc)); bool r = read(file); c.hit(); c.label(r ? "damaged: rejected" : "damaged: read"); } }
    visit<M, typename T::CellTag>(m); visit<M, typename viennagrid::result_of::facet_tag<M>::type>(m); for (auto const & g : sg) viennagrid::cells(g).size();
  }
}
template<> double visit<viennagrid::line_2d_mesh, viennagrid::vertex_tag>(viennagrid::line_2d_mesh const &) { return 0; }
}
VH_REG(a, "netgen_line_2d", run<viennagrid::line_2d_mesh>, 0.3);
VH_REG(b, "netgen_triangular_2d", run<viennagrid::triangular_2d_mesh>, 1);
VH_REG(d, "netgen_tetrahedral_3d", run<viennagrid::tetrahedral_3d_mesh>, 1);
VH_REG(e, "netgen_hexahedral_3d", run<viennagrid::hexahedral_3d_mesh>, 0.5);
