#include "c25.hpp"
#include "viennagrid/io/mphtxt_writer.hpp"
namespace {
typedef viennagrid::tetrahedral_3d_mesh M; typedef Types<M> T; typedef viennagrid::result_of::segmentation<M>::type Sgn; typedef viennagrid::result_of::segment_handle<Sgn>::type SH;
struct Line { std::vector<std::string> t; };
Pt cross(Pt const & a, Pt const & b) { return Pt{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
double dot(Pt const & a, Pt const & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
void mphtxt(Src & s, Case & c) {
  bool jit = s.chance(30); GridOpt o; o.maxn = 3; o.jitter = jit; o.isolated = s.chance(20); RefMesh r = grid<viennagrid::tetrahedron_tag>(s, 3, o); if (s.chance(10)) { double f = s.chance(50) ? 1e-3 : 1e3; for (auto & q : r.pts) for (double & x : q) x *= f; }
  M m; auto ch = build_ids(m, r, any_ids(s, r.pts.size())); Sgn sg(m); size_t NC = r.cells.size(); std::vector<int> seg(NC, -1); std::vector<int> ids; long ns = s.range(1, 4); bool cont = s.chance(60); for (long i = 0; i < ns; ++i) ids.push_back(cont ? (int)i : (int)i * 2 + (int)s.draw(2)); bool partial = s.chance(30); if (s.chance(30)) s.shuffle(ids);
  std::vector<SH> hs; for (int x : ids) hs.push_back(sg.get_make_segment(x)); bool blocks = s.chance(60); for (size_t i = 0; i < NC; ++i) { if (partial && s.chance(25)) continue; size_t g = (size_t)s.draw((uint64_t)ns); if (blocks) { double x = 0; for (int v : r.cells[i]) x += r.pts[(size_t)v][0] / 4; g = (size_t)(((long)std::floor(x) % ns + ns) % ns); } seg[i] = ids[g]; viennagrid::add(hs[g], ch[i]); }
  std::string stem = s.chance(25) ? "/o.1" : "/o"; bool full = s.chance(50); std::string base = c.scratch + stem + ".mphtxt"; viennagrid::io::mphtxt_writer w; if (s.chance(3)) { std::string bad = no_place(s, c, "d.mphtxt"); refused(c, bad, [&] { w(m, sg, bad); }); } w(m, sg, full ? base : c.scratch + stem); std::string text = slurp(base);
  // strip comments, then read the fixed sequence of the format
  std::string plain; { std::istringstream is(text); std::string l; while (std::getline(is, l)) { size_t k = l.find('#'); plain += (k == std::string::npos ? l : l.substr(0, k)) + "\n"; } } Tok t(plain);
  VH_EQ(t.integer(), 0L, "version"); VH_EQ(t.integer(), 1L, "version"); VH_EQ(t.integer(), 1L, "tags"); { std::string l; long n = t.integer(); VH_EQ((long)t.next().size(), n, "length of the tag"); } VH_EQ(t.integer(), 1L, "types"); { long n = t.integer(); VH_EQ((long)t.next().size(), n, "length of the type"); }
  VH_EQ(t.integer(), 0L, "object"); VH_EQ(t.integer(), 0L, "object"); VH_EQ(t.integer(), 1L, "object"); VH_EQ(t.integer(), 4L, "class"); VH_EQ(t.next(), std::string("Mesh"), "class"); t.integer(); VH_EQ(t.integer(), 3L, "sdim"); long np = t.integer(); VH_EQ(np, (long)r.pts.size(), "number of mesh points"); VH_EQ(t.integer(), 0L, "lowest index");
  std::vector<Pt> pts; for (long i = 0; i < np; ++i) { Pt p; for (int k = 0; k < 3; ++k) p.push_back(t.num()); pts.push_back(p); } std::vector<int> where = match(pts, r.pts); auto vtx = [&](long i) { VH_CHECK(i >= 0 && i < np, "vertex index " << i << " out of range"); return where[(size_t)i]; };
  VH_EQ(t.integer(), 2L, "element types");
  // triangles
  VH_EQ(t.integer(), 3L, "type name"); VH_EQ(t.next(), std::string("tri"), "type name"); VH_EQ(t.integer(), 3L, "nodes per triangle"); long nt = t.integer(); std::vector<Cell> tri; for (long i = 0; i < nt; ++i) { Cell q; for (int k = 0; k < 3; ++k) q.push_back(vtx(t.integer())); tri.push_back(q); }
  VH_EQ(t.integer(), 3L, "parameters"); VH_EQ(t.integer(), 0L, "parameters"); VH_EQ(t.integer(), nt, "number of triangle entities"); std::vector<long> contact; for (long i = 0; i < nt; ++i) contact.push_back(t.integer()); VH_EQ(t.integer(), nt, "number of up/down pairs"); std::vector<std::pair<long, long> > ud; for (long i = 0; i < nt; ++i) { long a = t.integer(); ud.push_back(std::make_pair(a, t.integer())); }
  // tetrahedra
  VH_EQ(t.integer(), 3L, "type name"); VH_EQ(t.next(), std::string("tet"), "type name"); VH_EQ(t.integer(), 4L, "nodes per tetrahedron"); VH_EQ(t.integer(), (long)NC, "number of tetrahedra"); std::map<Cell, int> look; for (size_t i = 0; i < NC; ++i) look[r.cells[i]] = (int)i; std::vector<int> cw; std::set<int> seen; for (size_t i = 0; i < NC; ++i) { Cell q; for (int k = 0; k < 4; ++k) q.push_back(vtx(t.integer())); auto it = look.find(q); VH_CHECK(it != look.end() && seen.insert(it->second).second, "tetrahedron " << str(q) << " of the file is no cell of the mesh, or written twice"); cw.push_back(it->second); }
  VH_EQ(t.integer(), 4L, "parameters"); VH_EQ(t.integer(), 0L, "parameters"); VH_EQ(t.integer(), (long)NC, "number of domain entries"); for (size_t i = 0; i < NC; ++i) VH_EQ(t.integer(), (long)seg[(size_t)cw[i]] + 1, "segment of tetrahedron " << i); VH_EQ(t.integer(), 0L, "pairs"); VH_CHECK(t.end(), "text after the end");
  // oracle: for every triangle the cells on it; it belongs to the hull of a segment when exactly one of the segment's cells is there
  std::map<std::vector<int>, std::vector<int> > co; for (size_t i = 0; i < NC; ++i) for (auto const & b : boundary<viennagrid::tetrahedron_tag>(r.cells[i], 2)) co[sorted(b)].push_back((int)i);
  std::map<std::vector<int>, std::map<int, int> > hull; for (auto const & kv : co) { std::map<int, std::vector<int> > by; for (int q : kv.second) if (seg[(size_t)q] >= 0) by[seg[(size_t)q]].push_back(q); for (auto const & b : by) if (b.second.size() == 1) hull[kv.first][b.first] = b.second[0]; }
  std::map<std::vector<int>, size_t> idx; for (size_t i = 0; i < tri.size(); ++i) VH_CHECK(idx.insert(std::make_pair(sorted(tri[i]), i)).second, "triangle written twice"); VH_EQ(tri.size(), hull.size(), "number of boundary and interface triangles");
  std::vector<Pt> nrm(tri.size()); std::vector<std::set<int> > sid(tri.size());
  for (auto const & kv : hull) { auto it = idx.find(kv.first); VH_CHECK(it != idx.end(), "boundary triangle " << str(kv.first) << " is missing"); size_t i = it->second; Pt p0 = r.pts[(size_t)tri[i][0]], n = cross(diff(r.pts[(size_t)tri[i][1]], p0), diff(r.pts[(size_t)tri[i][2]], p0)); double l = std::sqrt(dot(n, n)); for (double & x : n) x /= l; nrm[i] = n; long up = 0, down = 0; 
    for (auto const & g : kv.second) { sid[i].insert(g.first); int opp = -1; for (int v : r.cells[(size_t)g.second]) if (!std::count(kv.first.begin(), kv.first.end(), v)) opp = v; bool away = dot(diff(p0, r.pts[(size_t)opp]), n) > 0; (away ? up : down) = g.first + 1; }
    VH_EQ(ud[i].first, up, "first segment of triangle " << str(tri[i])); VH_EQ(ud[i].second, down, "second segment of triangle " << str(tri[i])); if (up && down) c.label("interface"); }
  // contacts: connected sets of coplanar hull triangles with the same segments
  std::vector<int> comp(tri.size(), -1); int nc = 0; std::set<int> segments(seg.begin(), seg.end());
  bool sharp = true; auto par = [&](size_t a, size_t b) { double d = std::fabs(dot(nrm[a], nrm[b])); if (d <= 1.0 - 1e-8 && d > 1.0 - 1e-5) sharp = false; if (jit && d > 1.0 - 1e-5 && d < 1 - 1e-14) sharp = false; return d > 1.0 - 1e-6; };
  for (size_t i = 0; i < tri.size(); ++i) { VH_CHECK(contact[i] >= 0, "contact index missing"); if (comp[i] >= 0) continue; comp[i] = nc; std::vector<size_t> st(1, i); while (!st.empty()) { size_t a = st.back(); st.pop_back(); for (size_t b = 0; b < tri.size(); ++b) { if (comp[b] >= 0 || sid[a] != sid[b]) continue; bool touch = false; for (int v : tri[a]) if (std::count(tri[b].begin(), tri[b].end(), v)) touch = true; if (touch && par(a, b)) { comp[b] = nc; st.push_back(b); } } } ++nc; }
  if (sharp) { std::map<int, long> f; std::map<long, int> g; for (size_t i = 0; i < tri.size(); ++i) { if (!f.count(comp[i])) f[comp[i]] = contact[i]; if (!g.count(contact[i])) g[contact[i]] = comp[i]; VH_EQ(contact[i], f[comp[i]], "one planar patch carries two contact indices"); VH_EQ(comp[i], g[contact[i]], "two planar patches carry the same contact index"); } long mx = -1; for (long x : contact) mx = std::max(mx, x); VH_EQ(mx + 1, (long)nc, "contact indices are not consecutive"); c.label("contacts compared"); }
  c.hit(nt > 4 && segments.size() >= 2); c.desc << NC << " cells " << ns << " segments " << nt << " triangles" << (partial ? " partial" : "");
}
}
VH_REG(a, "mphtxt", mphtxt, 1.5);
