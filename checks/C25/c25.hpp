// C25: OpenDX, COMSOL and ViennaMesh writers
#include "meshgen.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/io/opendx_writer.hpp"
#include "viennagrid/io/vmesh_writer.hpp"
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
using namespace mg; using vh::Case;
namespace {
inline std::string slurp(std::string const & f) { std::ifstream i(f.c_str(), std::ios::binary); VH_CHECK(i.good(), "no file " << f.substr(f.rfind('/') + 1) << " written"); std::ostringstream o; o << i.rdbuf(); return o.str(); }
// a place where no file can be opened for writing: a folder that does not exist, or a folder itself
inline std::string no_place(Src & s, Case & c, std::string const & name) { if (s.chance(50)) return c.scratch + "/missing/" + name; std::string d = c.scratch + "/" + name; ::mkdir(d.c_str(), 0700); return d; }
template<class F> void refused(Case & c, std::string const & dir, F f) { bool threw = false; try { f(); } catch (std::exception const &) { threw = true; } ::rmdir(dir.c_str()); VH_CHECK(threw, "a file that cannot be opened is not reported"); c.label("file cannot be opened"); }
inline bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-13 * std::max(std::fabs(a), std::fabs(b)); }
// tokens: quoted strings are one token
struct Tok { std::vector<std::string> t; size_t at; explicit Tok(std::string const & x) : at(0) { size_t i = 0; while (i < x.size()) { if (std::isspace((unsigned char)x[i])) { ++i; continue; } size_t j = i; if (x[i] == '"') { j = x.find('"', i + 1); if (j == std::string::npos) j = x.size() - 1; ++j; } else while (j < x.size() && !std::isspace((unsigned char)x[j]) && x[j] != '"') ++j; t.push_back(x.substr(i, j - i)); i = j; } }
  std::string next() { VH_CHECK(at < t.size(), "the file ends too early"); return t[at++]; } bool end() const { return at >= t.size(); } std::string peek() const { return at < t.size() ? t[at] : std::string(); }
  double num() { std::string s = next(); char * e; double v = std::strtod(s.c_str(), &e); VH_CHECK(*e == 0 && !s.empty(), "'" << s << "' where a number is expected"); return v; } long integer() { double v = num(); VH_CHECK(v == std::floor(v), "integer expected"); return (long)v; } };
template<class Tag> RefMesh any_mesh(Src & s, int gdim) {
  RefMesh r; if (s.chance(70)) { GridOpt o; o.maxn = 3; o.isolated = s.chance(30); r = grid<Tag>(s, gdim, o); } else { r = combinatorial(s, Topo<Tag>::nv, gdim, 12, 6); std::set<std::vector<int> > k; std::vector<Cell> keep; for (auto const & q : r.cells) if (k.insert(sorted(q)).second) keep.push_back(q); r.cells = keep; }
  std::set<Pt> seen; for (auto & q : r.pts) while (!seen.insert(q).second) q[0] += 0.125; if (s.chance(20)) { double f = s.chance(50) ? 1e-9 : 1e9; for (auto & q : r.pts) for (double & x : q) x *= f; } if (s.chance(5)) r.cells.clear(); return r; }
inline std::vector<int> any_ids(Src & s, size_t n) { std::vector<int> v; bool gaps = s.chance(40); int id = 0; for (size_t i = 0; i < n; ++i) { if (gaps) id += (int)s.draw(3); v.push_back(id++); } if (s.chance(25)) s.shuffle(v); return v; }
template<class M> std::vector<typename Types<M>::CH> build_ids(M & m, RefMesh const & r, std::vector<int> const & id) { std::vector<typename Types<M>::VH> vh; for (size_t i = 0; i < r.pts.size(); ++i) vh.push_back(viennagrid::make_vertex_with_id(m, typename Types<M>::Vertex::id_type(id[i]), to_point<typename Types<M>::Point>(r.pts[i]))); std::vector<typename Types<M>::CH> ch; for (auto const & q : r.cells) ch.push_back(add_cell(m, vh, q)); return ch; }
// file index -> reference vertex, by coordinates
inline std::vector<int> match(std::vector<Pt> const & got, std::vector<Pt> const & want) { VH_EQ(got.size(), want.size(), "number of vertices written"); std::vector<int> r; std::set<int> seen; for (auto const & p : got) { int hit = -1; for (size_t i = 0; i < want.size(); ++i) { bool ok = p.size() == want[i].size(); for (size_t k = 0; ok && k < p.size(); ++k) ok = near(p[k], want[i][k]); if (ok && !seen.count((int)i)) { hit = (int)i; break; } } VH_CHECK(hit >= 0, "a vertex of the file is no vertex of the mesh"); seen.insert(hit); r.push_back(hit); } return r; }
template<class Tag> bool dx_type(std::string const & t) { switch ((int)Topo<Tag>::tdim * 10 + (int)Topo<Tag>::nv) { case 12: return t == "\"line\"" || t == "\"lines\""; case 23: return t == "\"triangles\""; case 24: return t == "\"quads\""; case 34: return t == "\"tetrahedra\""; default: return t == "\"cubes\""; } }

template<class M> void opendx(Src & s, Case & c) {
  typedef Types<M> T; typedef typename T::Vertex V; typedef typename T::Cell_ C; typedef typename T::CellTag CT; int gdim = (int)T::Point::dim; std::string file = c.scratch + "/a.dx";
  RefMesh r = any_mesh<CT>(s, gdim); std::vector<int> id = any_ids(s, r.pts.size()); std::unique_ptr<M> mp(new M); M & m = *mp; build_ids(m, r, id); size_t NV = r.pts.size(), NC = r.cells.size(); int top = 0; for (int x : id) top = std::max(top, x + 1);
  viennagrid::io::opendx_writer<M> w; struct D { bool cell; std::string name; std::vector<double> v; }; std::vector<D> data; std::vector<std::unique_ptr<std::vector<double> > > store; long nd = s.chance(60) ? 1 : s.range(0, 3); static char const * names[] = {"b", "a", "c", "potential", "Z"};
  std::map<std::pair<bool, std::string>, int> pos;
  for (long i = 0; i < nd; ++i) { D d; d.cell = s.chance(45); d.name = names[s.draw(5)]; size_t n = d.cell ? NC : NV; for (size_t k = 0; k < n; ++k) d.v.push_back((double)s.range_signed(s.chance(80) ? 2000 : 200000000) / 8.0 + (s.chance(30) ? 1.0 / 3.0 : 0.0)); store.push_back(std::unique_ptr<std::vector<double> >(new std::vector<double>(d.cell ? NC : (size_t)top, -7.0))); auto & box = *store.back(); for (size_t k = 0; k < n; ++k) box[d.cell ? k : (size_t)id[k]] = d.v[k];
    bool fr = s.chance(50); if (d.cell) { typename viennagrid::result_of::field<std::vector<double>, C>::type f(box); if (fr) viennagrid::io::add_scalar_data_on_cells(w, f, d.name); else w.add_scalar_data_on_cells(f, d.name); } else { typename viennagrid::result_of::field<std::vector<double>, V>::type f(box); if (fr) viennagrid::io::add_scalar_data_on_vertices(w, f, d.name); else w.add_scalar_data_on_vertices(f, d.name); }
    auto k = std::make_pair(d.cell, d.name); if (pos.count(k)) data[(size_t)pos[k]] = d; else { pos[k] = (int)data.size(); data.push_back(d); } }   // a name registered again replaces the earlier registration
  // the first vertex quantity, otherwise the first cell quantity is written
  D const * exp = 0; for (auto const & d : data) if (!d.cell && !exp) exp = &d; if (!exp) for (auto const & d : data) if (d.cell && !exp) exp = &d;
  if (s.chance(3)) { std::string bad = no_place(s, c, "d.dx"); refused(c, bad, [&] { w(m, bad); }); }
  for (int round = 0; round < (int)s.range(1, 2); ++round) {
    w(m, file); Tok t(slurp(file)); std::vector<Pt> pts; std::vector<Cell> cells; std::vector<double> vals; std::string type, dep; bool hp = false, hc = false, hv = false, field = false; std::string last;
    while (!t.end()) {
      std::string k = t.next();
      if (k == "object") { std::string nm = t.next(); last = nm; long shape = 1, items = -1; std::string cls; bool follows = false; while (!t.end() && t.peek() != "object" && t.peek() != "attribute" && t.peek() != "component" && !follows) { std::string a = t.next(); if (a == "class") cls = t.next(); else if (a == "shape") shape = t.integer(); else if (a == "items") items = t.integer(); else if (a == "data") { VH_EQ(t.next(), std::string("follows"), "object header"); follows = true; } }
        if (cls == "field") { field = true; continue; } VH_CHECK(follows && items >= 0, "header of object " << nm); 
        if (nm == "\"points\"") { hp = true; VH_EQ(shape, (long)gdim, "shape of the points"); for (long i = 0; i < items; ++i) { Pt p; for (long j = 0; j < shape; ++j) p.push_back(t.num()); pts.push_back(p); } }
        else if (nm == "\"grid_Line_One\"") { hc = true; VH_EQ(shape, (long)Topo<CT>::nv, "shape of the connections"); for (long i = 0; i < items; ++i) { Cell q; for (long j = 0; j < shape; ++j) q.push_back((int)t.integer()); cells.push_back(q); } }
        else if (nm == "\"VisData\"") { hv = true; for (long i = 0; i < items; ++i) vals.push_back(t.num()); } }
      else if (k == "attribute") { std::string a = t.next(); VH_EQ(t.next(), std::string("string"), "attribute"); std::string v = t.next(); if (a == "\"element type\"") type = v; if (a == "\"dep\"" && last == "\"VisData\"") dep = v; }
      else if (k == "component") { t.next(); t.next(); }
      else VH_CHECK(false, "unexpected token " << k); }
    VH_CHECK(hp && hc && field, "objects missing"); VH_CHECK(dx_type<CT>(type), "element type " << type); std::vector<int> where = match(pts, r.pts); VH_EQ(cells.size(), NC, "number of cells written"); std::map<Cell, int> look; for (size_t i = 0; i < NC; ++i) look[r.cells[i]] = (int)i; std::vector<int> cw; std::set<int> seen;
    for (auto const & q : cells) { Cell k; for (int v : q) { VH_CHECK(v >= 0 && v < (int)NV, "vertex index " << v << " out of range"); k.push_back(where[(size_t)v]); } auto it = look.find(k); VH_CHECK(it != look.end(), "cell " << str(k) << " of the file is no cell of the mesh"); VH_CHECK(seen.insert(it->second).second, "cell written twice"); cw.push_back(it->second); }
    VH_EQ(hv, exp != 0, "data present"); if (exp) { VH_EQ(dep, std::string(exp->cell ? "\"connections\"" : "\"positions\""), "data dependency"); VH_EQ(vals.size(), exp->cell ? NC : NV, "number of values"); for (size_t i = 0; i < vals.size(); ++i) { double e = exp->v[(size_t)(exp->cell ? cw[i] : where[i])]; VH_CHECK(std::fabs(vals[i] - e) <= 2.1e-5 + 1e-12 * std::fabs(e), "value of '" << exp->name << "' at " << i << ": file has " << vals[i] << ", expected " << e); } } }
  c.hit(NC >= 2 && exp); c.desc << NV << " vertices " << NC << " cells " << data.size() << " data"; if (data.size() > 1) c.label("several quantities");
}
inline std::string tag(std::string const & x, std::string const & n, size_t & at) { size_t i = x.find("<" + n + ">", at); VH_CHECK(i != std::string::npos, "element " << n << " missing"); size_t j = x.find("</" + n + ">", i); VH_CHECK(j != std::string::npos, "element " << n << " not closed"); at = j + n.size() + 3; return x.substr(i + n.size() + 2, j - i - n.size() - 2); }
template<class M> void vmesh(Src & s, Case & c) {
  typedef Types<M> T; typedef typename viennagrid::result_of::segmentation<M>::type Sgn; typedef typename viennagrid::result_of::segment_handle<Sgn>::type SH; int gdim = (int)T::Point::dim; RefMesh r = any_mesh<typename T::CellTag>(s, gdim); M m; auto ch = build_ids(m, r, any_ids(s, r.pts.size())); Sgn sg(m); long ns = s.range(0, 4); std::map<int, std::pair<std::set<int>, std::set<int> > > want;
  for (long g = 0; g < ns; ++g) { int id = (int)s.draw(9); SH h = sg.get_make_segment(id); auto & w = want[id]; for (size_t i = 0; i < r.cells.size(); ++i) if (s.chance(40)) { viennagrid::add(h, ch[i]); w.first.insert((int)i); w.second.insert(r.cells[i].begin(), r.cells[i].end()); } }
  std::string in = s.chance(50) ? "some mesh.vtu" : "input", out = c.scratch + (s.chance(50) ? "/o.vmesh" : s.chance(50) ? "/o" : "/o.v1"); viennagrid::io::vmesh_writer<M> w; if (s.chance(3)) { std::string bad = no_place(s, c, "d.vmesh"); refused(c, bad, [&] { w(m, sg, in, bad); }); } w(m, sg, in, out); if (out.size() < 6 || out.substr(out.size() - 6) != ".vmesh") out += ".vmesh";
  std::string x = slurp(out); size_t at = 0; std::string body = tag(x, "mesh", at); at = 0; VH_EQ(tag(body, "file", at), in, "input file"); VH_EQ(std::atoi(tag(body, "geomdim", at).c_str()), gdim, "geomdim"); VH_CHECK(!tag(body, "celltype", at).empty(), "celltype"); VH_EQ((size_t)std::atoi(tag(body, "vertices", at).c_str()), r.pts.size(), "vertices"); VH_EQ((size_t)std::atoi(tag(body, "cells", at).c_str()), r.cells.size(), "cells"); VH_EQ((size_t)std::atoi(tag(body, "segments", at).c_str()), want.size(), "segments");
  std::string segs = tag(body, "segmentation", at); at = 0; std::set<int> seen; while (segs.find("<segment>", at) != std::string::npos) { std::string g = tag(segs, "segment", at); size_t p = 0; int id = std::atoi(tag(g, "id", p).c_str()); VH_CHECK(want.count(id) && seen.insert(id).second, "segment id " << id); tag(g, "name", p); VH_EQ((size_t)std::atoi(tag(g, "vertices", p).c_str()), want[id].second.size(), "vertices of segment " << id); VH_EQ((size_t)std::atoi(tag(g, "cells", p).c_str()), want[id].first.size(), "cells of segment " << id); }
  VH_EQ(seen.size(), want.size(), "segments listed"); c.hit(want.size() >= 2); c.desc << r.cells.size() << " cells " << want.size() << " segments";
}
}
