#include "c26.hpp"
#include "viennagrid/io/bnd_reader.hpp"
namespace {
void helper(Src & s, Case & c) {
  Quiet q; viennagrid::io::bnd_helper b; std::string file = c.scratch + "/a.bnd"; long rounds = s.range(1, 3);
  for (long k = 0; k < rounds; ++k) {
    mf::Bnd f = mf::bnd(s, s.chance(60) ? 3 : 2, false); int rc = 0; auto read = [&](std::string const & n) { bool r = rejects([&]() { rc = b(n); }); return r || rc != EXIT_SUCCESS; };
    switch (s.draw(5)) {
      case 0: VH_CHECK(read(no_file(s, c, ".bnd")), "a missing file is not reported"); c.label("missing"); break;
      case 1: mf::write(file, f.text); VH_CHECK(!read(file), "a well-formed file is rejected"); VH_EQ(b.segment_size(), f.segs.size(), "number of segments"); break;
      default: { mf::write(file, damage(s, f.text, false, c.desc)); bool r = read(file); c.hit(); c.label(r ? "damaged: rejected" : "damaged: read");
        if (!r) { for (size_t g = 0; g < b.segment_size(); ++g) { for (auto const & p : b.segment(g)) for (long v : p) { VH_CHECK(v >= 0 && v < (long)b.geometry_size(), "a polygon refers to vertex " << v << " of " << b.geometry_size()); VH_EQ(b.point((size_t)v).size(), b.dim_geom(), "dimension of a point"); } b.segment_name(g).size(); b.segment_material(g).size(); } for (size_t g = 0; g < b.contact_size(); ++g) { b.contact_name(g).size(); b.contact_faces(g).size(); } } } }
  }
}
void reader(Src & s, Case & c) {
  typedef viennagrid::triangular_3d_mesh M; typedef viennagrid::result_of::segmentation<M>::type Sgn; Quiet q; viennagrid::io::bnd_reader rd; std::string file = c.scratch + "/a.bnd"; long rounds = s.range(1, 2);
  for (long k = 0; k < rounds; ++k) {
    mf::Bnd f = mf::bnd(s, 3, true); M m; Sgn sg(m); auto read = [&](std::string const & n) { return rejects([&]() { rd(m, sg, n); }); };
    switch (s.draw(5)) {
      case 0: VH_CHECK(read(no_file(s, c, ".bnd")), "a missing file is not reported"); c.label("missing"); break;
      case 1: { mf::Bnd g = mf::bnd(s, s.chance(50) ? 2 : 3, s.chance(50)); bool bad = g.dim == 2; for (auto const & x : g.segs) for (auto const & p : x.polys) if (p.size() != 3) bad = true; mf::write(file, g.text); VH_EQ(read(file), bad, "a file of another dimension or with other polygons must be rejected, a triangulation accepted"); break; }
      default: { mf::write(file, damage(s, f.text, false, c.desc)); bool r = read(file); c.hit(); c.label(r ? "damaged: rejected" : "damaged: read"); } }
    visit<M, viennagrid::triangle_tag>(m); visit<M, viennagrid::line_tag>(m); for (auto const & g : sg) viennagrid::cells(g).size();
  }
}
}
VH_REG(a, "bnd_helper", helper, 1);
VH_REG(b, "bnd_reader", reader, 1);
