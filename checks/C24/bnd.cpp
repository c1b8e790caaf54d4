#include "c24.hpp"
#include "viennagrid/io/bnd_reader.hpp"
namespace {
typedef std::vector<long> L;
// the face a -> b -> c -> ...: any start vertex, and the opposite direction where the file uses the face with negative sign
bool same_cycle(L const & got, mf::Ints const & want, bool flipped) { if (got.size() != want.size()) return false; size_t n = want.size(); for (int dir = 0; dir < (flipped ? 2 : 1); ++dir) for (size_t k = 0; k < n; ++k) { bool ok = true; for (size_t i = 0; i < n && ok; ++i) ok = got[i] == want[(k + (dir ? n - i : i)) % n]; if (ok) return true; } return false; }
void helper(Src & s, Case & c) {
  viennagrid::io::bnd_helper b; int rounds = (int)s.range(1, 2);
  for (int round = 0; round < rounds; ++round) {
    int dim = s.chance(60) ? 3 : 2; mf::Bnd f = mf::bnd(s, dim, false); std::string file = c.scratch + "/a.bnd"; mf::write(file, f.text); c.hit(f.segs.size() >= 2); if (!f.contacts.empty()) c.label("contacts"); c.desc << dim << "d " << f.pts.size() << " vertices, " << f.segs.size() << " segments, " << f.contacts.size() << " contacts; ";
    if (s.chance(50)) b.clear(); VH_EQ(b(file), EXIT_SUCCESS, "well-formed file rejected");
    VH_EQ((int)b.dim_geom(), dim, "dimension"); VH_EQ(b.geometry_size(), f.pts.size(), "number of vertices"); for (size_t i = 0; i < f.pts.size(); ++i) { std::ostringstream o; o << "vertex " << i; same_point(b.point(i), f.pts[i], o.str()); }
    VH_EQ(b.segment_size(), f.segs.size(), "number of segments");
    for (size_t g = 0; g < f.segs.size(); ++g) { auto const & q = f.segs[g]; auto & p = b.segment(g); VH_EQ(p.size(), q.polys.size(), "number of faces of segment " << g); for (size_t i = 0; i < p.size(); ++i) VH_CHECK(same_cycle(p[i], q.polys[i], q.flipped[i]), "segment " << g << " face " << i << " has wrong vertices"); VH_EQ(b.segment_name(g), q.name, "name of segment " << g); VH_EQ(b.segment_material(g), q.material, "material of segment " << g); }
    VH_EQ(b.contact_size(), f.contacts.size(), "number of contacts");
    for (size_t g = 0; g < f.contacts.size(); ++g) { auto const & q = f.contacts[g]; VH_EQ(b.contact_name(g), q.name, "contact name"); auto p = b.contact_faces(g); VH_EQ(p.size(), q.faces.size(), "number of faces of contact " << g); for (size_t i = 0; i < p.size(); ++i) VH_CHECK(dim == 2 ? p[i] == L(q.faces[i].begin(), q.faces[i].end()) : same_cycle(p[i], q.faces[i], false), "contact " << g << " face " << i << " has wrong vertices"); }
  }
}
void reader(Src & s, Case & c) {
  typedef viennagrid::triangular_3d_mesh M; typedef Types<M> T; typedef viennagrid::result_of::segmentation<M>::type Sgn; mf::Bnd f = mf::bnd(s, 3, true); std::string file = c.scratch + "/a.bnd"; mf::write(file, f.text); c.hit(f.segs.size() >= 2); c.desc << f.pts.size() << " vertices, " << f.segs.size() << " segments";
  // triangles with repeated points cannot be told apart by coordinates
  std::set<Pt> dp(f.pts.begin(), f.pts.end()); bool distinct = dp.size() == f.pts.size();
  M m; Sgn sg(m); viennagrid::io::bnd_reader rd; rd(m, sg, file); std::set<int> used; std::set<std::vector<int> > all; for (auto const & q : f.segs) for (auto const & p : q.polys) { used.insert(p.begin(), p.end()); all.insert(sorted(p)); }
  VH_EQ(viennagrid::vertices(m).size(), used.size(), "number of vertices"); VH_EQ(viennagrid::cells(m).size(), all.size(), "number of cells"); VH_EQ(sg.size(), f.segs.size(), "number of segments");
  std::multiset<Pt> gv, wv; for (auto const & v : viennagrid::vertices(m)) gv.insert(from_point(viennagrid::point(v))); for (int v : used) wv.insert(f.pts[(size_t)v]); VH_CHECK(gv == wv, "vertex coordinates");
  if (distinct) { std::map<Pt, int> pos; for (size_t i = 0; i < f.pts.size(); ++i) pos[f.pts[i]] = (int)i;
    for (size_t g = 0; g < f.segs.size(); ++g) { std::set<std::vector<int> > want, got; for (auto const & p : f.segs[g].polys) want.insert(sorted(p)); auto h = sg((int)g); size_t k = 0; for (auto const & q : viennagrid::cells(h)) { std::vector<int> v; for (auto const & x : viennagrid::vertices(q)) v.push_back(pos[from_point(viennagrid::point(x))]); got.insert(sorted(v)); ++k; } VH_EQ(k, want.size(), "number of cells of segment " << g); VH_CHECK(got == want, "cells of segment " << g); } }
  for (size_t g = 0; g < f.segs.size(); ++g) VH_EQ(viennagrid::cells(sg((int)g)).size(), f.segs[g].polys.size(), "cells of segment " << g);
}
}
VH_REG(a, "bnd_helper", helper, 1);
VH_REG(b, "bnd_reader", reader, 1);
