#include "c24.hpp"
#include "viennagrid/io/tetgen_poly_reader.hpp"
#include "viennagrid/io/neper_tess_reader.hpp"
namespace {
template<class Seeds> void check_seeds(Seeds const & got, std::vector<std::pair<Pt, int> > const & want) { VH_EQ(got.size(), want.size(), "number of seed points"); for (size_t i = 0; i < want.size(); ++i) { std::ostringstream o; o << "seed point " << i; same_point(from_point(got[i].first), want[i].first, o.str()); VH_EQ(got[i].second, want[i].second, o.str() << " segment id"); } }
template<class M> void tetgen(Src & s, Case & c) {
  typedef Types<M> T; typedef typename T::Point P; int dim = (int)viennagrid::result_of::static_size<P>::value; mf::Poly f = mf::poly(s, dim); std::string file = c.scratch + "/a.poly"; mf::write(file, f.text); c.hit(f.facets.size() >= 2); c.desc << f.pts.size() << " vertices, " << f.facets.size() << " facets, " << f.holes.size() << " holes, " << f.seeds.size() << " seeds";
  M m; viennagrid::io::tetgen_poly_reader rd; std::vector<P> holes(s.draw(3)); std::vector<std::pair<P, int> > seeds(s.draw(3)); int how = (int)s.draw(6);
  if (how == 0) rd(m, file); else if (how == 1) rd(m, file, holes); else if (how == 2) rd(m, file, seeds); else rd(m, file, holes, seeds);
  auto vs = viennagrid::vertices(m); VH_EQ(vs.size(), f.pts.size(), "number of vertices"); std::map<long, int> pos; for (size_t i = 0; i < f.pts.size(); ++i) pos[f.ids[i]] = (int)i;
  std::set<int> got; for (auto const & v : vs) { auto it = pos.find((long)v.id().get()); VH_CHECK(it != pos.end(), "vertex id " << v.id().get() << " is not in the file"); VH_CHECK(got.insert(it->second).second, "vertex id twice"); std::ostringstream o; o << "vertex with id " << v.id().get(); same_point(from_point(viennagrid::point(v)), f.pts[(size_t)it->second], o.str()); }
  std::vector<Plc> want; for (auto const & q : f.facets) { Plc p; p.holes = q.holes; for (auto const & g : q.polys) { p.verts.insert(g.begin(), g.end()); size_t k = g.size(); if (k == 1) c.label("loose vertex"); else if (k == 2) p.lines.insert(sorted(g)); else for (size_t i = 0; i < k; ++i) p.lines.insert(sorted(std::vector<int>{g[i], g[(i + 1) % k]})); } if (!p.holes.empty()) c.label("facet hole"); want.push_back(p); }
  check_plcs(m, want, [&](typename T::Vertex const & v) { return pos[(long)v.id().get()]; });
  if (how == 1 || how > 2) { VH_EQ(holes.size(), f.holes.size(), "number of hole points"); for (size_t i = 0; i < holes.size(); ++i) { std::ostringstream o; o << "hole " << i; same_point(from_point(holes[i]), f.holes[i], o.str()); } }
  if (how >= 2) check_seeds(seeds, f.seeds);
}
template<class M> void neper(Src & s, Case & c) {
  typedef Types<M> T; typedef typename T::Point P; int dim = (int)viennagrid::result_of::static_size<P>::value; mf::Tess f = mf::tess(s, dim); std::string file = c.scratch + "/a.tess"; mf::write(file, f.text); c.hit(f.faces.size() >= 2); c.desc << f.pts.size() << " vertices, " << f.faces.size() << " faces, " << f.seeds.size() << " polyhedra";
  M m; viennagrid::io::neper_tess_reader rd; std::vector<std::pair<P, int> > seeds(s.draw(3)); bool plain = s.chance(20); if (plain) rd(m, file); else rd(m, file, seeds);
  auto vs = viennagrid::vertices(m); VH_EQ(vs.size(), f.pts.size(), "number of vertices"); std::map<typename T::Vertex const *, int> pos; for (size_t i = 0; i < f.pts.size(); ++i) { std::ostringstream o; o << "vertex " << i; same_point(from_point(viennagrid::point(vs[i])), f.pts[i], o.str()); pos[&vs[i]] = (int)i; }
  std::vector<Plc> want; for (auto const & g : f.faces) { Plc p; p.verts.insert(g.begin(), g.end()); for (size_t i = 0; i < g.size(); ++i) p.lines.insert(sorted(std::vector<int>{g[i], g[(i + 1) % g.size()]})); want.push_back(p); }
  check_plcs(m, want, [&](typename T::Vertex const & v) { return pos[&v]; }); if (!plain) check_seeds(seeds, f.seeds);
}
}
VH_REG(a, "tetgen_3d", tetgen<viennagrid::plc_3d_mesh>, 2);
VH_REG(d, "neper_3d", neper<viennagrid::plc_3d_mesh>, 1);
