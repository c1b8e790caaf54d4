#include "c26.hpp"
#include "viennagrid/io/tetgen_poly_reader.hpp"
#include "viennagrid/io/neper_tess_reader.hpp"
namespace {
typedef viennagrid::plc_3d_mesh M; typedef Types<M>::Point P;
void walk(M const & m) { for (auto const & v : viennagrid::vertices(m)) { volatile double x = viennagrid::point(v)[0]; (void)x; } visit<M, viennagrid::line_tag>(m); visit<M, viennagrid::plc_tag>(m); typedef viennagrid::result_of::const_element_range<M, viennagrid::plc_tag>::type R; R r(m); for (viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) viennagrid::hole_points(*it).size(); }
std::vector<size_t> data_lines(std::string const & x) { std::vector<size_t> r; size_t i = 0; while (i < x.size()) { size_t e = x.find('\n', i); if (e == std::string::npos) e = x.size(); for (size_t k = i; k < e; ++k) { if (x[k] == '#') break; if (!std::isspace((unsigned char)x[k])) { r.push_back(e); break; } } i = e + 1; } return r; }   // end offset of every line with data
void tetgen(Src & s, Case & c) {
  Quiet q; viennagrid::io::tetgen_poly_reader rd; std::string file = c.scratch + "/a.poly"; long rounds = s.range(1, 3);
  for (long k = 0; k < rounds; ++k) {
    mf::Poly f = mf::poly(s, 3); M m; std::vector<P> holes; std::vector<std::pair<P, int> > seeds; auto read = [&](std::string const & n) { return rejects([&]() { rd(m, n, holes, seeds); }); };
    switch (s.draw(5)) {
      case 0: VH_CHECK(read(no_file(s, c, ".poly")), "a missing file is not reported"); c.label("missing"); break;
      case 1: { auto l = data_lines(f.text); size_t a = 2 + f.pts.size(); for (auto const & x : f.facets) a += 1 + x.polys.size() + x.holes.size(); size_t b = f.tail > 0 ? a + 1 + f.holes.size() : a, e = f.tail > 1 ? b + 1 + f.seeds.size() : b; VH_EQ(l.size(), e, "generator: lines"); size_t keep = (size_t)s.draw(e); bool ok = keep == a || keep == b; std::string t = keep ? f.text.substr(0, l[keep - 1]) : ""; if (s.chance(50)) t += "\n"; mf::write(file, t); c.desc << " cut after " << keep << "/" << e << " lines"; VH_EQ(read(file), !ok, (ok ? "a file without the optional sections is rejected" : "a file that ends before the announced data is accepted")); c.hit(); c.label("truncated"); break; }
      case 2: mf::write(file, f.text); VH_CHECK(!read(file), "a well-formed file is rejected"); VH_EQ(viennagrid::vertices(m).size(), f.pts.size(), "number of vertices"); break;
      default: { mf::write(file, damage(s, f.text, false, c.desc)); bool r = read(file); c.hit(); c.label(r ? "damaged: rejected" : "damaged: read"); } }
    walk(m); }
}
void neper(Src & s, Case & c) {
  Quiet q; viennagrid::io::neper_tess_reader rd; std::string file = c.scratch + "/a.tess"; long rounds = s.range(1, 3);
  for (long k = 0; k < rounds; ++k) {
    mf::Tess f = mf::tess(s, 3); M m; std::vector<std::pair<P, int> > seeds; auto read = [&](std::string const & n) { return rejects([&]() { rd(m, n, seeds); }); };
    switch (s.draw(5)) {
      case 0: { std::string n = c.scratch + "/absent.tess"; VH_CHECK(read(n), "a missing file is not reported"); c.label("missing"); break; }
      case 1: mf::write(file, f.text); VH_CHECK(!read(file), "a well-formed file is rejected"); VH_EQ(viennagrid::vertices(m).size(), f.pts.size(), "number of vertices"); break;
      default: { mf::write(file, damage(s, f.text, false, c.desc)); bool r = read(file); c.hit(); c.label(r ? "damaged: rejected" : "damaged: read"); } }
    walk(m); }
}
}
VH_REG(a, "tetgen", tetgen, 2);
VH_REG(b, "neper", neper, 1);
