#include "delhist.hpp"
#include "viennagrid/io/serialization.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <sstream>
using namespace topo;

template<class M> struct Dump { std::vector<std::vector<double> > pts; std::vector<std::vector<int> > cells; std::vector<size_t> counts; };
template<class M> Dump<M> dump(M & m, bool positions) {       // cells by position of their vertices
  Dump<M> d; std::map<int, int> pos; typedef typename Types<M>::Point P;
  for (auto const & v : viennagrid::vertices(m)) { int n = (int)pos.size(); pos[(int)v.id().get()] = n; std::vector<double> p; for (int i = 0; i < (int)P::dim; ++i) p.push_back(viennagrid::point(v)[(size_t)i]); d.pts.push_back(p); }
  for (auto const & c : viennagrid::cells(m)) { std::vector<int> k; for (int i : vids(c)) k.push_back(positions ? pos.at(i) : i); d.cells.push_back(k); }
  return d;
}
static bool same_bits(std::vector<double> const & a, std::vector<double> const & b) { return a.size() == b.size() && (a.empty() || !std::memcmp(&a[0], &b[0], a.size() * sizeof(double))); }
static double coord(vh::Src & s) { double v = s.real(); switch (s.draw(10)) { case 6: return v * 1e300; case 7: return v * 1e-300; case 8: return v / 3.0; case 9: return v * 1e-320; default: return v; } }

template<class M> void fill(vh::Src & s, M & m, bool & sparse, std::ostream & o) {
  typedef typename Types<M>::CellTag CT; typedef typename Types<M>::Point P; GridOpt opt; opt.maxn = Topo<CT>::tdim == 3 ? 2 : 3; RefMesh r = grid<CT>(s, P::dim, opt); std::vector<typename Types<M>::VH> vh_; typedef typename viennagrid::result_of::vertex<M>::type V; int id = 0; bool expl = s.chance(50);
  if (s.chance(20)) r.cells.clear();
  for (auto p : r.pts) { if (s.chance(50)) for (auto & x : p) x = coord(s); if (expl) { id += (int)s.range(1, 5); vh_.push_back(viennagrid::make_vertex_with_id(m, typename V::id_type(id), to_point<P>(p))); sparse = true; } else vh_.push_back(viennagrid::make_vertex(m, to_point<P>(p))); }
  if (s.chance(40)) for (long i = s.range(1, 3); i > 0; --i) { P p; for (int d = 0; d < (int)P::dim; ++d) p[(size_t)d] = coord(s); viennagrid::make_vertex(m, p); }       // loose vertices
  for (auto const & q : r.cells) if (s.chance(90)) add_cell(m, vh_, q);
  if (s.chance(40) && viennagrid::vertices(m).size() > 1) { auto rg = viennagrid::vertices(m); viennagrid::erase_element(m, rg.handle_at((size_t)s.draw(rg.size()))); sparse = true; o << "erase "; }
  o << viennagrid::vertices(m).size() << "v/" << viennagrid::cells(m).size() << "c ";
}
template<class M> void equal(Dump<M> const & a, Dump<M> const & b, char const * what) {
  VH_CHECK(a.pts.size() == b.pts.size(), what << ": " << b.pts.size() << " vertices instead of " << a.pts.size()); for (size_t i = 0; i < a.pts.size(); ++i) VH_CHECK(same_bits(a.pts[i], b.pts[i]), what << ": coordinates of vertex " << i);
  VH_CHECK(a.cells.size() == b.cells.size(), what << ": " << b.cells.size() << " cells instead of " << a.cells.size()); for (size_t i = 0; i < a.cells.size(); ++i) VH_CHECK(a.cells[i] == b.cells[i], what << ": vertices of cell " << i);
}
template<class M, class OA, class IA> void trip(vh::Src & s, vh::Case & c) {
  typedef viennagrid::io::mesh_serializer<M> S; std::vector<M> src((size_t)s.range(1, 3)); bool sparse = false; size_t cells = 0; std::vector<Dump<M> > ref, raw;
  for (auto & m : src) { fill(s, m, sparse, c.desc); ref.push_back(dump(m, true)); raw.push_back(dump(m, false)); cells += ref.back().cells.size(); }
  std::stringstream file; { OA oa(file); for (auto & m : src) { if (s.chance(50)) { S const w(m); oa << w; } else { S w; bool thrown = false; if (s.chance(20)) { std::stringstream t; OA ob(t); try { S const & cw = w; ob << cw; } catch (viennagrid::io::bad_serialization_state_exception const & e) { thrown = std::string(e.what()).find("not loaded") != std::string::npos; } VH_CHECK(thrown, "a serializer without a mesh was written"); } w.load(m); S const & cw = w; VH_CHECK(&w.get() == &m && &cw.get() == &m && &w() == &m && &cw() == &m, "serializer refers to another mesh"); oa << cw; } } }
  for (size_t i = 0; i < src.size(); ++i) { equal(raw[i], dump(src[i], false), "mesh after writing"); }
  std::vector<M> dst(src.size()); { IA ia(file); for (auto & m : dst) { S w(m); if (s.chance(50)) { S x; x.load(m); ia >> x; } else ia >> w; } }
  for (size_t i = 0; i < src.size(); ++i) { std::ostringstream o; o << "mesh " << i << " read back"; equal(ref[i], dump(dst[i], true), o.str().c_str()); VH_EQ(viennagrid::elements<viennagrid::line_tag>(dst[i]).size() >= (ref[i].cells.empty() ? 0u : 1u), true, "edges"); }
  // an archive of the restored meshes is the same archive
  std::stringstream again; { OA oa(again); for (auto & m : dst) { S const w(m); oa << w; } } VH_CHECK(again.str() == file.str(), "second archive differs");
  c.hit(cells >= 2 && sparse); if (sparse) c.label("sparse-ids");
}
typedef boost::archive::text_oarchive TO; typedef boost::archive::text_iarchive TI; typedef boost::archive::binary_oarchive BO; typedef boost::archive::binary_iarchive BI;
VH_REG(a1, "line1", (trip<viennagrid::line_1d_mesh, TO, TI>), 1);
VH_REG(a3, "line3", (trip<viennagrid::line_3d_mesh, BO, BI>), 1);
VH_REG(b2, "tri2", (trip<viennagrid::triangular_2d_mesh, TO, TI>), 1);
VH_REG(b3, "tri3", (trip<viennagrid::triangular_3d_mesh, BO, BI>), 1);
VH_REG(q2, "quad2", (trip<viennagrid::quadrilateral_2d_mesh, TO, TI>), 1);
VH_REG(t3, "tet", (trip<viennagrid::tetrahedral_3d_mesh, TO, TI>), 1);
VH_REG(h3, "hex", (trip<viennagrid::hexahedral_3d_mesh, TO, TI>), 1);
