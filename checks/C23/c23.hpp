// C23: VTK export and import
#include "meshgen.hpp"
#include "vtu.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/io/vtk_writer.hpp"
#include "viennagrid/io/vtk_reader.hpp"
using namespace mg; using vh::Case;
namespace {
typedef std::vector<double> Vec;
inline bool near(double a, double b) { if (a == b) return true; return std::fabs(a - b) <= 1e-13 * std::max(std::fabs(a), std::fabs(b)); }
inline bool near(Vec const & a, Vec const & b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!near(a[i], b[i])) return false; return true; }

inline double value(Src & s) { switch (s.draw(8)) { case 0: return 0.0; case 1: return 1.0 / 3.0 * (double)s.range_signed(1000); case 2: return 1e300 * (double)s.range_signed(9); case 3: return 1e-300 * (double)s.range_signed(9); case 4: return std::ldexp((double)s.range_signed(1000000007L), (int)s.range_signed(60)); default: return s.real(); } }
inline std::string name(Src & s, std::set<std::string> & used) {
  static char const * base[] = {"a", "potential", "Potential", "x", "connectivity", "Temp", "J n", "u=v", "value", "q_1"};
  for (int k = 0;; ++k) { std::string n = base[s.draw(10)]; if (k || s.chance(30)) { std::ostringstream o; o << n << s.draw(30) + (k > 3 ? 100 + k : 0); n = o.str(); } if (used.insert(n).second) return n; }
}
// permutation from the library's vertex order to the VTK order (VTK_QUAD / VTK_HEXAHEDRON run around the faces)
inline Cell vtk_order(Cell const & q) { Cell r(q); if (q.size() == 4) std::swap(r[2], r[3]); if (q.size() == 8) { std::swap(r[2], r[3]); std::swap(r[6], r[7]); } return r; }
template<class Tag> Cell file_order(Cell const & q) { return (int)Topo<Tag>::nv == (1 << (int)Topo<Tag>::tdim) ? vtk_order(q) : q; }
template<class Tag> int vtk_type() { switch ((int)Topo<Tag>::tdim * 10 + (int)Topo<Tag>::nv) { case 12: return 3; case 23: return 5; case 24: return 9; case 34: return 10; default: return 12; } }

// one data set: kind 0 vertex scalar, 1 vertex vector, 2 cell scalar, 3 cell vector; scope -1 the mesh, else segment index
struct Data { int kind, scope; std::string name; std::vector<Vec> v; };
struct Spec { RefMesh r; std::vector<int> ids; std::vector<int> vid; std::vector<std::set<int> > seg; std::vector<Data> data; bool segmented() const { return seg.size() >= 2; } };
struct Part { int id; std::vector<int> verts, cells; std::vector<int> loose; };   // content of one .vtu file in reference numbering

template<class Tag> Spec make_spec(Src & s, int gdim) {
  Spec p; if (s.chance(75)) { GridOpt o; o.maxn = 3; o.isolated = s.chance(30); p.r = grid<Tag>(s, gdim, o); }
  else { p.r = combinatorial(s, Topo<Tag>::nv, gdim, 12, 6); std::set<std::vector<int> > k; std::vector<Cell> keep; for (auto const & q : p.r.cells) if (k.insert(sorted(q)).second) keep.push_back(q); p.r.cells = keep; }
  // pairwise distinct coordinates that stay distinct in 15 digits
  std::set<Pt> seen; for (auto & q : p.r.pts) { for (double & x : q) x = std::floor(x * 1e6 + 0.5) / 1e6; while (!seen.insert(q).second) q[0] += 0.125; }
  if (s.chance(20)) { double f = s.chance(50) ? 1e-9 : 1e9; for (auto & q : p.r.pts) for (double & x : q) x *= f; }
  if (s.chance(5)) p.r.cells.clear();
  bool gaps = s.chance(35); int id = 0; for (size_t i = 0; i < p.r.pts.size(); ++i) { if (gaps) id += (int)s.draw(3); p.vid.push_back(id++); }
  if (gaps && s.chance(40)) s.shuffle(p.vid);
  long ns = s.chance(30) ? s.range(0, 1) : s.range(2, 4); std::set<int> ids; bool cont = s.chance(60); while ((long)ids.size() < ns) { int x = cont ? (int)ids.size() : (int)s.draw(12); while (!ids.insert(x).second) ++x; } p.ids.assign(ids.begin(), ids.end()); if (s.chance(30)) s.shuffle(p.ids);
  p.seg.resize((size_t)ns);
  bool part = s.chance(50); for (size_t i = 0; i < p.r.cells.size() && ns; ++i) { if (part) p.seg[(size_t)s.draw((uint64_t)ns)].insert((int)i); else for (auto & g : p.seg) if (s.chance(45)) g.insert((int)i); }
  std::set<std::string> used[4]; long nd = s.range(0, 6); std::vector<std::string> shared;
  for (long i = 0; i < nd; ++i) {
    Data d; d.kind = (int)s.draw(4); d.scope = -1; bool seg = ns >= 2 && s.chance(55); d.name = s.chance(30) && !shared.empty() && !used[d.kind].count(shared.back()) ? shared.back() : name(s, used[d.kind]); used[d.kind].insert(d.name); shared.push_back(d.name);
    size_t n = d.kind < 2 ? p.r.pts.size() : p.r.cells.size(), w = d.kind % 2 ? 3 : 1;
    auto fill = [&](Data & e) { e.v.clear(); for (size_t k = 0; k < n; ++k) { Vec v; for (size_t c = 0; c < w; ++c) v.push_back(value(s)); e.v.push_back(v); } };
    if (!seg) { fill(d); p.data.push_back(d); }
    else for (long g = 0; g < ns; ++g) if (s.chance(65)) { Data e(d); e.scope = (int)g; fill(e); p.data.push_back(e); }
  }
  return p;
}
inline std::vector<Part> parts(Spec const & p) {
  std::vector<Part> r;
  auto one = [&](int id, std::vector<int> cells) { Part q; q.id = id; q.cells = cells; std::set<int> v; for (int c : cells) for (int x : p.r.cells[(size_t)c]) v.insert(x); q.verts.assign(v.begin(), v.end()); r.push_back(q); };
  if (!p.segmented()) { std::vector<int> all; for (size_t i = 0; i < p.r.cells.size(); ++i) all.push_back((int)i); one(0, all); return r; }
  std::map<int, int> o; for (size_t i = 0; i < p.ids.size(); ++i) o[p.ids[i]] = (int)i;
  for (auto const & kv : o) one(kv.first, std::vector<int>(p.seg[(size_t)kv.second].begin(), p.seg[(size_t)kv.second].end()));
  return r;
}
inline bool applies(Spec const & p, Data const & d, Part const & q) { return d.scope < 0 || (p.segmented() && p.ids[(size_t)d.scope] == q.id); }
inline std::string fname(std::string const & base, Spec const & p, Part const & q) { if (!p.segmented()) return base + ".vtu"; std::ostringstream o; o << base << "_" << q.id << ".vtu"; return o.str(); }

template<class M> struct Ex {
  typedef Types<M> T; typedef typename T::CellTag CT; typedef typename viennagrid::result_of::segmentation<M>::type Sgn; typedef typename viennagrid::result_of::segment_handle<Sgn>::type SH;
  typedef typename T::Vertex V; typedef typename T::Cell_ C; typedef viennagrid::io::vtk_writer<M> W; typedef viennagrid::io::vtk_reader<M> R;

  // containers indexed by element id that outlive the writer call
  struct Store { std::deque<std::vector<double> > sv; std::deque<std::vector<Vec> > vv; std::deque<std::map<typename V::id_type, double> > msv; };
  template<class E, class Add> static void each(std::vector<int> const & ids, Data const & d, Store & st, Add add) {}

  static void reg(W & w, Sgn & sg, Spec const & p, Data const & d, Store & st, int how) {
    size_t n = 0; for (int v : p.vid) n = std::max(n, (size_t)v + 1); if (d.kind >= 2) n = p.r.cells.size();
    auto slot = [&](size_t i) { return d.kind < 2 ? (size_t)p.vid[i] : i; };
    if (d.kind % 2 == 0) { st.sv.push_back(std::vector<double>(n, -77.0)); for (size_t i = 0; i < d.v.size(); ++i) st.sv.back()[slot(i)] = d.v[i][0]; }
    else { st.vv.push_back(std::vector<Vec>(n, Vec(3, -77.0))); for (size_t i = 0; i < d.v.size(); ++i) st.vv.back()[slot(i)] = d.v[i]; }
    using namespace viennagrid; using namespace viennagrid::io;
    int id = d.scope < 0 ? 0 : p.ids[(size_t)d.scope]; bool byid = how % 2, freefn = (how / 2) % 2, acc = (how / 4) % 2;
#define GO(FN, E, BOX) do { \
      typename viennagrid::result_of::field<const typename std::remove_reference<decltype(BOX)>::type, E>::type f(const_cast<typename std::remove_reference<decltype(BOX)>::type const &>(BOX)); \
      if (d.scope < 0) { if (freefn) viennagrid::io::FN(w, f, d.name); else w.FN(f, d.name); } \
      else if (freefn) { SH h = sg[id]; viennagrid::io::FN(w, h, f, d.name); } \
      else if (byid) w.FN(id, f, d.name); else { SH h = sg[id]; w.FN(h, f, d.name); } } while (0)
    switch (d.kind) {
      case 0: GO(add_scalar_data_on_vertices, V, st.sv.back()); break;
      case 1: GO(add_vector_data_on_vertices, V, st.vv.back()); break;
      case 2: GO(add_scalar_data_on_cells, C, st.sv.back()); break;
      default: GO(add_vector_data_on_cells, C, st.vv.back());
    }
#undef GO
  }
  static void build_mesh(M & mesh, Sgn & sg, Spec const & p) {
    std::vector<typename T::VH> vh; for (size_t i = 0; i < p.r.pts.size(); ++i) vh.push_back(viennagrid::make_vertex_with_id(mesh, typename V::id_type(p.vid[i]), to_point<typename T::Point>(p.r.pts[i])));
    std::vector<typename T::CH> ch; for (auto const & q : p.r.cells) ch.push_back(add_cell(mesh, vh, q));
    for (size_t g = 0; g < p.seg.size(); ++g) { SH h = sg.get_make_segment(p.ids[g]); for (int c : p.seg[g]) viennagrid::add(h, ch[(size_t)c]); }
  }
  static std::map<int, int> byvid(Spec const & p, Part const & q) { std::map<int, int> m; for (int v : q.verts) m[p.vid[(size_t)v]] = v; return m; }
  // ---- what was written, judged on the file itself; returns nothing, throws on a mismatch
  static void check_file(Spec const & p, Part const & q, std::string const & file) {
    vtu::File f = vtu::parse(file); std::string at = " in part " + std::to_string(q.id);
    VH_EQ(f.npts, (long)q.verts.size(), "NumberOfPoints" << at); VH_EQ(f.ncells, (long)q.cells.size(), "NumberOfCells" << at);
    vtu::Arr const * P = f.find("Points", "", 3); if (!P) for (auto const & a : f.arrays) if (a.section == "Points" && a.comps == 3) P = &a; VH_CHECK(P, "no Points array" << at); Vec x = P->num(); VH_EQ(x.size(), 3 * q.verts.size(), "number of coordinates" << at);
    std::map<int, int> where;          // file index -> reference vertex
    { std::map<Pt, int> look; for (int v : q.verts) { Pt k = p.r.pts[(size_t)v]; k.resize(3, 0.0); look[k] = v; }
      std::set<int> seen; for (size_t i = 0; i < q.verts.size(); ++i) { int hit = -1; Pt a(x.begin() + (long)(3 * i), x.begin() + (long)(3 * i + 3)); for (auto const & kv : look) if (near(kv.first, a)) hit = kv.second; VH_CHECK(hit >= 0, "point (" << a[0] << "," << a[1] << "," << a[2] << ") of the file is not a vertex of the part" << at); VH_CHECK(seen.insert(hit).second, "vertex written twice" << at); where[(int)i] = hit; } }
    vtu::Arr const * con = f.find("Cells", "connectivity"), * off = f.find("Cells", "offsets"), * typ = f.find("Cells", "types"); VH_CHECK(con && off && typ, "cell arrays" << at);
    size_t nv = Topo<CT>::nv; Vec cn = con->num(), of = off->num(), ty = typ->num(); VH_EQ(cn.size(), nv * q.cells.size(), "connectivity length" << at); VH_EQ(of.size(), q.cells.size(), "offsets length" << at); VH_EQ(ty.size(), q.cells.size(), "types length" << at);
    std::map<Cell, int> look; for (int c : q.cells) look[file_order<CT>(p.r.cells[(size_t)c])] = c; std::vector<int> cellat; std::set<int> seen;
    for (size_t i = 0; i < q.cells.size(); ++i) { VH_EQ(of[i], (double)((i + 1) * nv), "offset" << at); VH_EQ(ty[i], (double)vtk_type<CT>(), "VTK cell type" << at); Cell k; for (size_t j = 0; j < nv; ++j) { VH_CHECK(where.count((int)cn[i * nv + j]), "connectivity index out of range" << at); k.push_back(where[(int)cn[i * nv + j]]); } auto it = look.find(k); VH_CHECK(it != look.end(), "cell " << str(k) << " of the file is no cell of the part in VTK vertex order" << at); VH_CHECK(seen.insert(it->second).second, "cell written twice" << at); cellat.push_back(it->second); }
    size_t want = 0;
    for (auto const & d : p.data) if (applies(p, d, q)) {
      ++want; char const * sec = d.kind < 2 ? "PointData" : "CellData"; vtu::Arr const * a = f.find(sec, d.name, d.kind % 2 ? 3 : 1); VH_CHECK(a, "quantity '" << d.name << "' kind " << d.kind << " missing" << at); Vec v = a->num(); size_t w = d.kind % 2 ? 3 : 1, n = d.kind < 2 ? q.verts.size() : q.cells.size(); VH_EQ(v.size(), w * n, "length of '" << d.name << "'" << at);
      for (size_t i = 0; i < n; ++i) for (size_t c = 0; c < w; ++c) { double e = d.v[(size_t)(d.kind < 2 ? where[(int)i] : cellat[i])][c]; VH_CHECK(near(v[i * w + c], e), "quantity '" << d.name << "' kind " << d.kind << " entry " << i << ": file has " << v[i * w + c] << ", expected " << e << at); }
    }
    size_t have = 0; for (auto const & a : f.arrays) if (a.section == "PointData" || a.section == "CellData") ++have; VH_EQ(have, want, "number of data arrays" << at);
  }
  static void check_pvd(Spec const & p, std::vector<Part> const & ps, std::string const & base) {
    std::string b = base.substr(base.rfind('/') + 1); std::map<int, std::string> got;
    for (auto const & e : vtu::events(vtu::slurp(base + "_main.pvd"))) if (e.name == "DataSet") { VH_CHECK(e.at.count("part") && e.at.count("file"), "DataSet attributes"); VH_CHECK(got.insert(std::make_pair(std::atoi(e.at.at("part").c_str()), e.at.at("file"))).second, "part listed twice"); }
    VH_EQ(got.size(), ps.size(), "parts listed in the pvd file"); for (auto const & q : ps) { std::ostringstream o; o << b << "_" << q.id << ".vtu"; VH_CHECK(got.count(q.id) && got[q.id] == o.str(), "pvd entry of part " << q.id); }
  }

  // ---- reading back
  struct Got { int kind, mode, part; std::string name; std::map<int, double> s_; };
  static void check_read(Src & s, Case & c, R & r, Spec const & p, std::vector<Part> const & ps, std::string const & file) {
    M mesh; Sgn sg(mesh); bool withseg = s.chance(80); if (s.chance(20)) sg.get_make_segment(ps[0].id);
    std::map<int, int> pidx; for (size_t i = 0; i < ps.size(); ++i) pidx[ps[i].id] = (int)i;
    // registration plan: for each (kind, name): 0 query, 1 registered for the mesh, 2 registered for some segments
    std::map<std::pair<int, std::string>, int> plan; std::map<std::pair<int, std::string>, std::set<int> > plansegs;
    for (auto const & d : p.data) { auto k = std::make_pair(d.kind, d.name); if (!plan.count(k)) { plan[k] = (int)s.draw(3); if (plan[k] == 2) for (auto const & q : ps) if (s.chance(60)) plansegs[k].insert(q.id); } }
    if (s.chance(20)) { auto k = std::make_pair((int)s.draw(4), std::string("absent name")); plan[k] = 1; }
    size_t NV = p.r.pts.size() + 1, NC = p.r.cells.size() + 1; std::deque<std::vector<double> > bs; std::deque<std::vector<Vec> > bv; std::map<std::pair<std::pair<int, std::string>, int>, void *> box;
    const double MARK = -3.25e77;
    for (auto const & kv : plan) { if (!kv.second) continue; std::vector<int> scopes; if (kv.second == 1) scopes.push_back(-1); else scopes.assign(plansegs[kv.first].begin(), plansegs[kv.first].end());
      for (int sc : scopes) {
        int kind = kv.first.first; std::string const & nm = kv.first.second; size_t n = kind < 2 ? NV : NC; bool fr = sc < 0 && s.chance(50), hd = sc >= 0 && s.chance(50); if (s.chance(20) && sc < 0) { } // names may be registered twice: the later registration counts
        if (kind % 2 == 0) { bs.push_back(std::vector<double>(n, MARK)); box[std::make_pair(kv.first, sc)] = &bs.back();
          if (kind == 0) { auto f = viennagrid::make_field<V>(bs.back()); if (fr) viennagrid::io::add_scalar_data_on_vertices(r, f, nm); else if (sc < 0) r.register_vertex_scalar(f, nm); else if (hd) { SH h = sg.get_make_segment(sc); r.register_vertex_scalar(h, f, nm); } else r.register_vertex_scalar(sc, f, nm); }
          else { auto f = viennagrid::make_field<C>(bs.back()); if (fr) viennagrid::io::add_scalar_data_on_cells(r, f, nm); else if (sc < 0) r.register_cell_scalar(f, nm); else if (hd) { SH h = sg.get_make_segment(sc); r.register_cell_scalar(h, f, nm); } else r.register_cell_scalar(sc, f, nm); } }
        else { bv.push_back(std::vector<Vec>(n)); box[std::make_pair(kv.first, sc)] = &bv.back();
          if (kind == 1) { auto f = viennagrid::make_field<V>(bv.back()); if (fr) viennagrid::io::add_vector_data_on_vertices(r, f, nm); else if (sc < 0) r.register_vertex_vector(f, nm); else if (hd) { SH h = sg.get_make_segment(sc); r.register_vertex_vector(h, f, nm); } else r.register_vertex_vector(sc, f, nm); }
          else { auto f = viennagrid::make_field<C>(bv.back()); if (fr) viennagrid::io::add_vector_data_on_cells(r, f, nm); else if (sc < 0) r.register_cell_vector(f, nm); else if (hd) { SH h = sg.get_make_segment(sc); r.register_cell_vector(h, f, nm); } else r.register_cell_vector(sc, f, nm); } }
      } }
    std::string full = file;
    if (withseg) r(mesh, sg, full); else r(mesh, full);
    // vertices
    std::set<int> usedv; for (auto const & q : ps) { usedv.insert(q.verts.begin(), q.verts.end()); usedv.insert(q.loose.begin(), q.loose.end()); }
    auto vr = viennagrid::vertices(mesh); VH_EQ(vr.size(), usedv.size(), "number of vertices read");
    std::map<int, int> v2ref; std::set<int> vseen;
    for (auto const & v : vr) { Pt x = from_point(viennagrid::point(mesh, v)); int hit = -1; for (int u : usedv) if (near(p.r.pts[(size_t)u], x)) hit = u; VH_CHECK(hit >= 0, "vertex read that was not written"); VH_CHECK(vseen.insert(hit).second, "vertex read twice"); v2ref[(int)v.id().get()] = hit; }
    std::map<Cell, int> clook; std::set<int> usedc; for (auto const & q : ps) for (int k : q.cells) { clook[p.r.cells[(size_t)k]] = k; usedc.insert(k); }
    auto cr = viennagrid::cells(mesh); VH_EQ(cr.size(), usedc.size(), "number of cells read"); std::map<int, int> c2ref; std::set<int> cseen;
    for (auto const & e : cr) { Cell k; for (int v : vids(e)) k.push_back(v2ref.at(v)); auto it = clook.find(k); VH_CHECK(it != clook.end(), "cell " << str(k) << " read that was not written"); VH_CHECK(cseen.insert(it->second).second, "cell read twice"); c2ref[(int)e.id().get()] = it->second; }
    if (withseg) {
      VH_EQ(sg.size(), ps.size(), "number of segments read"); std::set<int> got;
      for (auto const & g : sg) { VH_CHECK(pidx.count(g.id()), "segment id " << g.id() << " was not written"); Part const & q = ps[(size_t)pidx[g.id()]]; got.insert(g.id());
        std::set<int> ks, vs; auto gc = viennagrid::cells(g); for (auto const & e : gc) VH_CHECK(ks.insert(c2ref.at((int)e.id().get())).second, "cell twice in a segment"); VH_CHECK(ks == std::set<int>(q.cells.begin(), q.cells.end()), "cells of segment " << g.id());
        auto gv = viennagrid::vertices(g); for (auto const & e : gv) VH_CHECK(vs.insert(v2ref.at((int)e.id().get())).second, "vertex twice in a segment"); VH_CHECK(vs == std::set<int>(q.verts.begin(), q.verts.end()), "vertices of segment " << g.id()); }
      VH_EQ(got.size(), ps.size(), "segments read");
    }
    // names
    for (auto const & q : ps) for (int kind = 0; kind < 4; ++kind) {
      std::multiset<std::string> e, g; for (auto const & d : p.data) if (d.kind == kind && applies(p, d, q)) e.insert(d.name);
      std::vector<std::string> l = kind == 0 ? r.scalar_vertex_data_names(q.id) : kind == 1 ? r.vector_vertex_data_names(q.id) : kind == 2 ? r.scalar_cell_data_names(q.id) : r.vector_cell_data_names(q.id); g.insert(l.begin(), l.end()); VH_CHECK(e == g, "names of quantities of kind " << kind << " in part " << q.id);
      auto all = kind == 0 ? viennagrid::io::get_scalar_data_on_vertices(r) : kind == 1 ? viennagrid::io::get_vector_data_on_vertices(r) : kind == 2 ? viennagrid::io::get_scalar_data_on_cells(r) : viennagrid::io::get_vector_data_on_cells(r); std::multiset<std::string> g2; for (auto const & x : all) if ((int)x.first == q.id) g2.insert(x.second); VH_CHECK(g2 == e, "get_*_data names of kind " << kind << " in part " << q.id);
      VH_CHECK(viennagrid::io::get_scalar_data_on_vertices(r).size() == r.get_scalar_data_on_vertices().size(), "name lists");
    }
    // values
    for (auto const & kv : plan) for (auto const & q : ps) {
      int kind = kv.first.first; std::string const & nm = kv.first.second; Data const * d = 0; for (auto const & e : p.data) if (e.kind == kind && e.name == nm && applies(p, e, q)) d = &e;
      bool registered = kv.second == 1 || (kv.second == 2 && plansegs[kv.first].count(q.id)); bool expect = d && !registered; std::vector<int> el = kind < 2 ? q.verts : q.cells; if (kind < 2) el.insert(el.end(), q.loose.begin(), q.loose.end()); if (el.empty() && expect) continue;   // nothing to hold a value for
      std::string at = " of '" + nm + "' kind " + std::to_string(kind) + " part " + std::to_string(q.id);
      std::map<int, int> back; for (auto const & x : (kind < 2 ? v2ref : c2ref)) back[x.second] = x.first; bool hd = withseg && s.chance(50);
      if (kind == 0) { auto f = hd ? r.vertex_scalar_field(nm, sg[q.id]) : r.vertex_scalar_field(nm, q.id); VH_EQ(f.is_valid(), expect, "validity of the field" << at); if (expect) for (auto const & v : vr) { int ref = v2ref[(int)v.id().get()]; if (std::count(el.begin(), el.end(), ref)) VH_CHECK(near(f(v), d->v[(size_t)ref][0]), "value" << at << ": got " << f(v) << ", expected " << d->v[(size_t)ref][0]); } }
      if (kind == 2) { auto f = hd ? r.cell_scalar_field(nm, sg[q.id]) : r.cell_scalar_field(nm, q.id); VH_EQ(f.is_valid(), expect, "validity of the field" << at); if (expect) for (auto const & v : cr) { int ref = c2ref[(int)v.id().get()]; if (std::count(el.begin(), el.end(), ref)) VH_CHECK(near(f(v), d->v[(size_t)ref][0]), "value" << at << ": got " << f(v) << ", expected " << d->v[(size_t)ref][0]); } }
      if (kind == 1) { auto f = hd ? r.vertex_vector_field(nm, sg[q.id]) : r.vertex_vector_field(nm, q.id); VH_EQ(f.is_valid(), expect, "validity of the field" << at); if (expect) for (auto const & v : vr) { int ref = v2ref[(int)v.id().get()]; if (std::count(el.begin(), el.end(), ref)) VH_CHECK(near(f(v), d->v[(size_t)ref]), "vector value" << at); } }
      if (kind == 3) { auto f = hd ? r.cell_vector_field(nm, sg[q.id]) : r.cell_vector_field(nm, q.id); VH_EQ(f.is_valid(), expect, "validity of the field" << at); if (expect) for (auto const & v : cr) { int ref = c2ref[(int)v.id().get()]; if (std::count(el.begin(), el.end(), ref)) VH_CHECK(near(f(v), d->v[(size_t)ref]), "vector value" << at); } }
    }
    for (auto const & b : box) {          // registered containers hold the data, and nothing else
      int kind = b.first.first.first, sc = b.first.second; std::string const & nm = b.first.first.second; auto const & m2 = kind < 2 ? v2ref : c2ref;
      std::vector<Vec> val; if (kind % 2 == 0) for (double x : *(std::vector<double> *)b.second) val.push_back(x == MARK ? Vec() : Vec(1, x)); else val = *(std::vector<Vec> *)b.second;
      std::vector<int> slotref(val.size(), -1); for (auto const & x : m2) if ((size_t)x.first < slotref.size()) slotref[(size_t)x.first] = x.second;
      for (size_t i = 0; i < val.size(); ++i) {
        std::vector<Vec> ok; if (slotref[i] >= 0) for (auto const & q : ps) if ((sc < 0 || q.id == sc)) { std::vector<int> el = kind < 2 ? q.verts : q.cells; if (kind < 2) el.insert(el.end(), q.loose.begin(), q.loose.end()); if (std::count(el.begin(), el.end(), slotref[i])) for (auto const & d : p.data) if (d.kind == kind && d.name == nm && applies(p, d, q)) ok.push_back(d.v[(size_t)slotref[i]]); }
        bool good = ok.empty() ? val[i].empty() : false; for (auto const & o : ok) if (near(o, val[i])) good = true;
        VH_CHECK(good, "registered container of '" << nm << "' kind " << kind << " scope " << sc << ": element " << i << (val[i].empty() ? " was not set" : ok.empty() ? " was set although there is no data for it" : " has a wrong value"));
      }
    }
    c.label(withseg ? "read-with-segmentation" : "read-mesh-only"); if (!box.empty()) c.label("registered-fields");
  }
};

// ---- files of other producers: same content, other layout
struct Style { Src & s; explicit Style(Src & s_) : s(s_) {}
  std::string num(double x) { char b[64]; static char const * f[] = {"%.17g", "%.16e", "%.18g", "%+.17g", "%.17E"}; snprintf(b, sizeof b, f[s.draw(5)], x); return b; }
  std::string sep() { static char const * w[] = {" ", "  ", "\n", "\t", " \n ", "\r\n"}; return w[s.draw(6)]; }
  std::string gap() { return s.chance(50) ? "\n" : s.chance(50) ? "\n    " : ""; }
  std::string tag(std::string const & n, std::vector<std::pair<std::string, std::string> > at) { if (s.chance(40)) s.shuffle(at); std::string r = "<" + n; for (auto const & a : at) r += (s.chance(20) ? "  " : " ") + a.first + (s.chance(10) ? " = " : "=") + "\"" + a.second + "\""; if (!at.empty() && s.chance(15)) r += " "; return r + ">"; } };
template<class Tag> void emit(Src & s, Spec const & p, Part const & q, std::string const & file) {
  Style y(s); std::ofstream o(file.c_str()); o << "<?xml version=\"1.0\"?>" << y.gap(); typedef std::vector<std::pair<std::string, std::string> > A;
  o << y.tag("VTKFile", A{{"type", "UnstructuredGrid"}, {"version", "0.1"}, {"byte_order", "LittleEndian"}}) << y.gap() << "<UnstructuredGrid>" << y.gap() << y.tag("Piece", A{{"NumberOfPoints", std::to_string(q.verts.size() + q.loose.size())}, {"NumberOfCells", std::to_string(q.cells.size())}}) << y.gap();
  std::vector<int> vo(q.verts), co(q.cells); vo.insert(vo.end(), q.loose.begin(), q.loose.end()); if (s.chance(60)) { s.shuffle(vo); } if (s.chance(60)) s.shuffle(co);
  std::map<int, int> pos; for (size_t i = 0; i < vo.size(); ++i) pos[vo[i]] = (int)i;
  o << "<Points>" << y.gap() << y.tag("DataArray", A{{"type", "Float64"}, {"NumberOfComponents", "3"}, {"format", "ascii"}}) << y.sep();
  for (int v : vo) { Pt x = p.r.pts[(size_t)v]; x.resize(3, 0.0); for (double d : x) o << y.num(d) << y.sep(); } o << "</DataArray>" << y.gap() << "</Points>" << y.gap();
  auto data = [&](bool vert) {
    std::vector<Data const *> l; for (auto const & d : p.data) if ((d.kind < 2) == vert && applies(p, d, q)) l.push_back(&d); if (l.empty() && s.chance(70)) return; s.shuffle(l);
    o << (vert ? "<PointData>" : "<CellData>") << y.gap();
    for (auto d : l) { A a{{"type", "Float64"}, {"Name", d->name}, {"format", "ascii"}}; if (d->kind % 2) a.push_back({"NumberOfComponents", "3"}); else if (s.chance(50)) a.push_back({"NumberOfComponents", "1"}); o << y.tag("DataArray", a) << y.sep(); for (int e : vert ? vo : co) for (double x : d->v[(size_t)e]) o << y.num(x) << y.sep(); o << "</DataArray>" << y.gap(); }
    o << (vert ? "</PointData>" : "</CellData>") << y.gap(); };
  data(true); o << "<Cells>" << y.gap(); std::vector<int> ord{0, 1, 2}; if (s.chance(60)) s.shuffle(ord);
  for (int k : ord) { o << y.tag("DataArray", A{{"type", k == 2 ? "UInt8" : "Int32"}, {"Name", k == 0 ? "connectivity" : k == 1 ? "offsets" : "types"}, {"format", "ascii"}}) << y.sep(); int off = 0; for (int e : co) { Cell f = file_order<Tag>(p.r.cells[(size_t)e]); off += (int)f.size(); if (k == 0) for (int v : f) o << pos[v] << y.sep(); else if (k == 1) o << off << y.sep(); else o << vtk_type<Tag>() << y.sep(); } o << "</DataArray>" << y.gap(); }
  o << "</Cells>" << y.gap(); data(false); o << "</Piece>" << y.gap() << "</UnstructuredGrid>" << y.gap() << "</VTKFile>" << y.gap();
}
template<class M> void run_foreign(Src & s, Case & c) {
  typedef Ex<M> E; typedef typename E::CT CT; typename E::R r; long rounds = s.range(1, 3);
  for (long k = 0; k < rounds; ++k) {
    Spec p = make_spec<CT>(s, E::T::Point::dim); std::vector<Part> ps = parts(p); if (s.chance(40)) for (auto & q : ps) for (size_t i = 0; i < p.r.pts.size(); ++i) if (!std::count(q.verts.begin(), q.verts.end(), (int)i) && s.chance(30)) q.loose.push_back((int)i); std::ostringstream b; b << c.scratch << "/g" << k; std::string f = b.str() + (p.segmented() ? ".pvd" : ".vtu");
    c.desc << " |"; describe(c.desc, p.r); for (size_t g = 0; g < p.seg.size(); ++g) { c.desc << " s" << p.ids[g] << "="; for (int i : p.seg[g]) c.desc << i << ","; } for (auto const & d : p.data) c.desc << " " << "vVcC"[d.kind] << "'" << d.name << "'@" << d.scope;
    if (p.segmented()) { std::ofstream o(f.c_str()); o << "<?xml version=\"1.0\"?>\n<VTKFile type=\"Collection\" version=\"0.1\">\n<Collection>\n"; std::vector<Part> l(ps); if (s.chance(50)) s.shuffle(l); for (auto const & q : l) { std::ostringstream n; n << "p" << (100 - q.id) << "_" << k << ".vtu"; Style y(s); std::string t = y.tag("DataSet", {{"timestep", "0"}, {"part", std::to_string(q.id)}, {"file", n.str()}}); o << t.substr(0, t.size() - 1) << "/>\n"; emit<CT>(s, p, q, c.scratch + "/" + n.str()); } o << "</Collection>\n</VTKFile>\n"; }
    else emit<CT>(s, p, ps[0], f);
    E::check_read(s, c, r, p, ps, f); c.hit(p.r.cells.size() >= 2); c.label("foreign");
  }
}
template<class M> void run_io(Src & s, Case & c) {
  typedef Ex<M> E; typedef typename E::CT CT; typename E::W w; typename E::R r;
  long rounds = s.range(1, 3);
  for (long k = 0; k < rounds; ++k) {
    Spec p = make_spec<CT>(s, E::T::Point::dim); std::vector<Part> ps = parts(p);
    M mesh; typename E::Sgn sg(mesh); E::build_mesh(mesh, sg, p); typename E::Store st;
    std::ostringstream b; b << c.scratch << "/f" << k; if (s.chance(20)) b << ".x"; std::string base = b.str();
    c.desc << " |"; describe(c.desc, p.r); for (size_t g = 0; g < p.seg.size(); ++g) { c.desc << " s" << p.ids[g] << "="; for (int i : p.seg[g]) c.desc << i << ","; } for (auto const & d : p.data) c.desc << " " << "vVcC"[d.kind] << "'" << d.name << "'@" << d.scope;
    bool fresh = s.chance(30); typename E::W w2; typename E::W & ww = fresh ? w2 : w; bool plain = p.data.empty() && s.chance(30);
    for (auto const & d : p.data) E::reg(ww, sg, p, d, st, (int)s.draw(8));
    if (p.seg.empty() && s.chance(60)) { if (plain) viennagrid::io::export_vtk(mesh, base); else ww(mesh, base); } else if (plain) viennagrid::io::export_vtk(mesh, sg, base); else ww(mesh, sg, base);
    for (auto const & q : ps) E::check_file(p, q, fname(base, p, q)); if (p.segmented()) E::check_pvd(p, ps, base);
    std::string f = p.segmented() ? base + "_main.pvd" : base + ".vtu";
    if (s.chance(30)) { typename E::R r2; E::check_read(s, c, r2, p, ps, f); } else E::check_read(s, c, r, p, ps, f);
    if (s.chance(20)) { // the writer handed over everything: nothing of the previous call is left
      std::string b2 = base + "again"; Spec p2(p); p2.data.clear(); ww(mesh, sg, b2); for (auto const & q : ps) E::check_file(p2, q, fname(b2, p2, q)); }
    if (s.chance(15)) { M m2; typename E::Sgn s2(m2); viennagrid::io::import_vtk(m2, s2, f); std::set<int> u; for (auto const & q : ps) u.insert(q.cells.begin(), q.cells.end()); VH_EQ(viennagrid::cells(m2).size(), u.size(), "import_vtk: number of cells"); }
    c.hit(p.r.cells.size() >= 2 && (!p.data.empty() || p.segmented())); if (p.segmented()) c.label("segmented"); if (!p.data.empty()) c.label("data");
  }
}
} // namespace
