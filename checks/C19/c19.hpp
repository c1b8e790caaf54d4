#include "meshgen.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/voronoi.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include <deque>
using namespace mg; using vh::Case; typedef long double LD;
struct W { LD x[3]; W() { x[0] = x[1] = x[2] = 0; } explicit W(Pt const & p) { for (size_t i = 0; i < 3; ++i) x[i] = i < p.size() ? p[i] : 0; } };
inline W operator-(W a, W const & b) { for (int i = 0; i < 3; ++i) a.x[i] -= b.x[i]; return a; }
inline W operator+(W a, W const & b) { for (int i = 0; i < 3; ++i) a.x[i] += b.x[i]; return a; }
inline W operator*(LD f, W a) { for (int i = 0; i < 3; ++i) a.x[i] *= f; return a; }
inline LD dot(W const & a, W const & b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
inline LD len(W const & a) { return std::sqrt(dot(a, a)); }
inline W cross(W const & a, W const & b) { W r; r.x[0] = a.x[1] * b.x[2] - a.x[2] * b.x[1]; r.x[1] = a.x[2] * b.x[0] - a.x[0] * b.x[2]; r.x[2] = a.x[0] * b.x[1] - a.x[1] * b.x[0]; return r; }
inline W mid(W const & a, W const & b) { return 0.5L * (a + b); }
inline W cc3(W const & a, W const & b, W const & c) { W u = b - a, v = c - a, n = cross(u, v); return a + (1 / (2 * dot(n, n))) * (dot(u, u) * cross(v, n) + dot(v, v) * cross(n, u)); }
inline W cc4(W const & a, W const & b, W const & c, W const & d) { W u = b - a, v = c - a, w = d - a; LD D = 2 * dot(u, cross(v, w)); return a + (1 / D) * (dot(u, u) * cross(v, w) + dot(v, v) * cross(w, u) + dot(w, w) * cross(u, v)); }
// signed distance of p from the line/plane foot q in the direction towards x
inline LD height(W const & p, W const & foot, W const & a, W const & b, W const & x) { W e = b - a, n = (x - a) - (dot(x - a, e) / dot(e, e)) * e; return dot(p - foot, n) / len(n); }
typedef std::vector<int> Key;
// intersection of the lines ab and cd in the plane
inline W cut(W const & a, W const & b, W const & c, W const & d) { W u = b - a, v = d - c, w = c - a; LD D = u.x[0] * v.x[1] - u.x[1] * v.x[0]; return a + ((w.x[0] * v.x[1] - w.x[1] * v.x[0]) / D) * u; }
inline LD area(W const & a, W const & b, W const & c) { return len(cross(b - a, c - a)) / 2; }
struct Ref { std::map<Key, LD> iface, ebox; std::vector<LD> vbox; std::vector<LD> cellvol; LD vol; bool per_cell; std::set<Key> bnd; };       // bnd: edges with only one triangle

template<class Tag> struct Dual;
template<> struct Dual<viennagrid::line_tag> { static void run(std::vector<W> const & p, Cell const & c, Ref & r, size_t i) {
  LD l = len(p[c[1]] - p[c[0]]); Key k = sorted(c); r.iface[k] = 1; r.ebox[k] += l; for (int v : c) r.vbox[v] += l / 2; r.cellvol[i] = l; } };
template<> struct Dual<viennagrid::triangle_tag> { static void run(std::vector<W> const & p, Cell const & c, Ref & r, size_t i) {
  W o = cc3(p[c[0]], p[c[1]], p[c[2]]); r.cellvol[i] = len(cross(p[c[1]] - p[c[0]], p[c[2]] - p[c[0]])) / 2;
  for (int k = 0; k < 3; ++k) { int a = c[k], b = c[(k + 1) % 3], x = c[(k + 2) % 3]; if (!r.bnd.count(sorted({a, b})) || height(o, mid(p[a], p[b]), p[a], p[b], p[x]) >= 0) continue;      // circumcenter beyond a boundary edge: boxes end there
    W q = cut(p[x], o, p[a], p[b]); for (int y : {a, b}) { W n = mid(p[x], p[y]), z = cut(n, o, p[a], p[b]); Key e = sorted({x, y}); LD fx = area(z, n, p[x]) + area(q, z, p[x]), fy = area(z, n, p[y]); r.iface[e] += len(z - n); r.ebox[e] += fx + fy; r.vbox[x] += fx; r.vbox[y] += fy; } r.iface[sorted({a, b})] += 0; return; }
  for (int k = 0; k < 3; ++k) { int a = c[k], b = c[(k + 1) % 3], x = c[(k + 2) % 3]; LD l = len(p[b] - p[a]), h = height(o, mid(p[a], p[b]), p[a], p[b], p[x]); Key e = sorted({a, b}); r.iface[e] += h; r.ebox[e] += l * h / 2; r.vbox[a] += l * h / 4; r.vbox[b] += l * h / 4; } } };
template<> struct Dual<viennagrid::quadrilateral_tag> { static void run(std::vector<W> const & p, Cell const & c, Ref & r, size_t i) { // rectangles
  r.cellvol[i] = len(p[c[1]] - p[c[0]]) * len(p[c[2]] - p[c[0]]); for (auto const & e : boundary<viennagrid::quadrilateral_tag>(c, 1)) { LD l = len(p[e[1]] - p[e[0]]), h = r.cellvol[i] / l / 2; Key k = sorted(e); r.iface[k] += h; r.ebox[k] += l * h / 2; } for (int v : c) r.vbox[v] += r.cellvol[i] / 4; } };
template<> struct Dual<viennagrid::hexahedron_tag> { static void run(std::vector<W> const & p, Cell const & c, Ref & r, size_t i) { // cuboids
  r.cellvol[i] = len(p[c[1]] - p[c[0]]) * len(p[c[2]] - p[c[0]]) * len(p[c[4]] - p[c[0]]); for (auto const & e : boundary<viennagrid::hexahedron_tag>(c, 1)) { LD l = len(p[e[1]] - p[e[0]]); Key k = sorted(e); r.iface[k] += r.cellvol[i] / l / 4; r.ebox[k] += r.cellvol[i] / 12; } for (int v : c) r.vbox[v] += r.cellvol[i] / 8; } };
template<> struct Dual<viennagrid::tetrahedron_tag> { static void run(std::vector<W> const & p, Cell const & c, Ref & r, size_t i) {
  W o = cc4(p[c[0]], p[c[1]], p[c[2]], p[c[3]]); r.cellvol[i] = std::fabs(dot(p[c[1]] - p[c[0]], cross(p[c[2]] - p[c[0]], p[c[3]] - p[c[0]]))) / 6; r.per_cell = false;
  for (int q = 0; q < 4; ++q) { int x = c[q], t[3]; for (int k = 0, n = 0; k < 4; ++k) if (k != q) t[n++] = c[k]; W f = cc3(p[t[0]], p[t[1]], p[t[2]]), n = cross(p[t[1]] - p[t[0]], p[t[2]] - p[t[0]]); LD hq = dot(o - f, n) / dot(p[x] - p[t[0]], n); hq *= std::fabs(dot(p[x] - p[t[0]], n)) / len(n);
    for (int k = 0; k < 3; ++k) { int a = t[k], b = t[(k + 1) % 3], y = t[(k + 2) % 3]; LD l = len(p[b] - p[a]), A = height(f, mid(p[a], p[b]), p[a], p[b], p[y]) * hq / 2; Key e = sorted({a, b}); r.iface[e] += A; r.ebox[e] += A * l / 3; r.vbox[a] += A * l / 6; r.vbox[b] += A * l / 6; } } } };

// ---- generators ----
template<class Tag> RefMesh gen(Src & s, Case & c, int gdim);
inline void rotate(Src & s, RefMesh & m, int gdim, int td) { // rigid motion + scaling (embedding lower dimensional meshes)
  double a[3][3] = {{1,0,0},{0,1,0},{0,0,1}}; int nr = s.chance(60) ? (gdim == 1 ? 0 : gdim == 2 ? 1 : 3) : 0;
  for (int q = 0; q < nr; ++q) { int i = q == 2 ? 1 : 0, j = q == 0 ? 1 : 2; double t = (double)s.range_signed(100) * 0.031, C = std::cos(t), S = std::sin(t); for (int k = 0; k < 3; ++k) { double u = a[i][k], v = a[j][k]; a[i][k] = C * u - S * v; a[j][k] = S * u + C * v; } }
  double f = s.chance(30) ? std::pow(10.0, (double)s.range_signed(4)) : 1.0, t[3]; for (int i = 0; i < 3; ++i) t[i] = s.chance(40) ? f * (double)s.range_signed(20) / 4 : 0;
  for (auto & p : m.pts) { Pt r; for (int i = 0; i < gdim; ++i) { double v = 0; for (int k = 0; k < td; ++k) v += a[i][k] * p[(size_t)k]; r.push_back(f * v + t[i]); } p = r; } }
template<class Tag> void finish(Src & s, RefMesh & m) { if (s.chance(60)) s.shuffle(m.cells); if (s.chance(80)) for (auto & q : m.cells) permute_cell<Tag>(s, q);
  std::vector<int> map(m.pts.size(), -1); for (auto & q : m.cells) for (int v : q) map[(size_t)v] = 0; std::vector<int> ord; for (size_t i = 0; i < map.size(); ++i) if (!map[i]) ord.push_back((int)i); if (s.chance(50)) s.shuffle(ord);
  std::vector<Pt> np; for (int o : ord) { map[(size_t)o] = (int)np.size(); np.push_back(m.pts[(size_t)o]); } m.pts = np; for (auto & q : m.cells) for (int & v : q) v = map[(size_t)v]; }
template<class Tag> RefMesh boxes(Src & s, int gdim, bool drop, long maxn) { GridOpt o; o.jitter = false; o.perm = false; o.drop = drop; o.embed = false; o.maxn = maxn; RefMesh m = grid<Tag>(s, gdim, o); for (auto & p : m.pts) p.resize(3, 0.0); rotate(s, m, gdim, Topo<Tag>::tdim); finish<Tag>(s, m); return m; }
template<> inline RefMesh gen<viennagrid::line_tag>(Src & s, Case &, int g) { // chains and graphs of lines
  if (s.chance(50)) return boxes<viennagrid::line_tag>(s, g, true, 8); RefMesh m = combinatorial(s, 2, g, 8, 12); std::set<Key> seen; std::vector<Cell> k; for (auto & q : m.cells) if (m.pts[(size_t)q[0]] != m.pts[(size_t)q[1]] && seen.insert(sorted(q)).second) k.push_back(q); m.cells = k; return m; }
template<> inline RefMesh gen<viennagrid::quadrilateral_tag>(Src & s, Case &, int g) { return boxes<viennagrid::quadrilateral_tag>(s, g, true, 5); }
template<> inline RefMesh gen<viennagrid::hexahedron_tag>(Src & s, Case &, int g) { return boxes<viennagrid::hexahedron_tag>(s, g, true, 3); }
inline std::vector<W> ws(RefMesh const & m) { std::vector<W> r; for (auto const & p : m.pts) r.push_back(W(p)); return r; }
template<class Tag> std::map<Key, std::vector<int> > facet_cells(RefMesh const & m) { std::map<Key, std::vector<int> > r; for (size_t i = 0; i < m.cells.size(); ++i) for (auto const & f : boundary<Tag>(m.cells[i], (int)Topo<Tag>::tdim - 1)) r[sorted(f)].push_back((int)i); return r; }
inline int other(Cell const & c, Key const & f) { for (int v : c) if (!std::count(f.begin(), f.end(), v)) return v; return -1; }
inline LD h2(std::vector<W> const & p, Cell const & t, Key const & e) { return height(cc3(p[t[0]], p[t[1]], p[t[2]]), mid(p[e[0]], p[e[1]]), p[e[0]], p[e[1]], p[other(t, e)]); }
inline bool gabriel_boundary(RefMesh const & m, std::vector<W> const & p) { for (auto const & f : facet_cells<viennagrid::triangle_tag>(m)) if (f.second.size() == 1 && h2(p, m.cells[f.second[0]], f.first) < -1e-12L) return false; return true; }
template<> inline RefMesh gen<viennagrid::triangle_tag>(Src & s, Case & c, int g) {
  typedef viennagrid::triangle_tag T; GridOpt o; o.jitter = o.perm = o.drop = o.embed = false; o.maxn = 5; RefMesh m0 = grid<T>(s, 2, o), m; double xm[2] = {1e300, 1e300}, xM[2] = {-1e300, -1e300}; for (auto & p : m0.pts) for (int d = 0; d < 2; ++d) { xm[d] = std::min(xm[d], p[(size_t)d]); xM[d] = std::max(xM[d], p[(size_t)d]); }
  double jit = s.chance(80) ? (double)s.range(1, 24) / 16.0 : 0; bool bj = s.chance(30), any = s.chance(35); std::vector<W> p;
  for (int tries = 0; tries < 4; ++tries, jit = tries == 3 ? 0 : jit / 2) { m = m0;
    if (jit > 0) for (auto & q : m.pts) for (int d = 0; d < 2; ++d) { bool on = q[(size_t)d] == xm[d] || q[(size_t)d] == xM[d]; if (!on) q[(size_t)d] += jit * 0.25 * (double)s.range_signed(64) / 64.0; else if (bj) q[(size_t)d] += 0.02 * jit * (double)s.range_signed(64) / 64.0; }
    p = ws(m); bool ok = true; for (auto & q : m.cells) { LD A = (p[q[1]].x[0] - p[q[0]].x[0]) * (p[q[2]].x[1] - p[q[0]].x[1]) - (p[q[1]].x[1] - p[q[0]].x[1]) * (p[q[2]].x[0] - p[q[0]].x[0]); ok = ok && A > 0.01L; } if (!ok && tries < 3) continue;
    for (int it = 0, flips = 1; flips && it < 60; ++it) { flips = 0; std::vector<char> touched(m.cells.size(), 0); for (auto const & f : facet_cells<T>(m)) { if (f.second.size() != 2 || touched[f.second[0]] || touched[f.second[1]]) continue; Cell & A = m.cells[f.second[0]]; Cell & B = m.cells[f.second[1]]; if (h2(p, A, f.first) + h2(p, B, f.first) < -1e-9L) { int x = other(A, f.first), y = other(B, f.first); A = {x, y, f.first[0]}; B = {x, y, f.first[1]}; touched[f.second[0]] = touched[f.second[1]] = 1; ++flips; } } }
    ok = any || gabriel_boundary(m, p); for (auto const & f : facet_cells<T>(m)) if (f.second.size() == 2 && h2(p, m.cells[f.second[0]], f.first) + h2(p, m.cells[f.second[1]], f.first) < -1e-9L) ok = false; for (auto & q : m.cells) if (len(cross(p[q[1]] - p[q[0]], p[q[2]] - p[q[0]])) < 0.01L) ok = false;
    if (ok) break; }
  if (!any && !gabriel_boundary(m, p)) m = m0;
  if (s.chance(40)) for (size_t k = (size_t)s.range(1, 6); k-- > 0 && m.cells.size() > 1;) { RefMesh t = m; t.cells.erase(t.cells.begin() + (long)s.draw(t.cells.size())); if (any || gabriel_boundary(t, ws(t))) m = t; }
  { std::vector<W> q = ws(m); int ob = 0; for (auto const & f : facet_cells<T>(m)) for (int t : f.second) ob += h2(q, m.cells[t], f.first) < -1e-6L; if (ob) c.label("obtuse"); if (!gabriel_boundary(m, q)) c.label("obtuse at the boundary"); }
  rotate(s, m, g, 2); finish<T>(s, m); return m; }
// conditions under which the dual polygons of all edges are convex and lie in the mesh
inline bool tets_ok(RefMesh const & m, std::vector<W> const & p) { typedef viennagrid::tetrahedron_tag T; auto F = facet_cells<T>(m); std::vector<W> o; for (auto const & q : m.cells) { if (std::fabs(dot(p[q[1]] - p[q[0]], cross(p[q[2]] - p[q[0]], p[q[3]] - p[q[0]]))) < 1e-3L) return false; o.push_back(cc4(p[q[0]], p[q[1]], p[q[2]], p[q[3]])); }
  std::map<Key, int> bf; std::map<Key, LD> dih; std::map<Key, std::vector<int> > ec; std::map<Key, int> inner;
  for (auto const & f : F) { W a = p[f.first[0]], n = cross(p[f.first[1]] - a, p[f.first[2]] - a); int x = other(m.cells[f.second[0]], f.first); if (dot(p[x] - a, n) < 0) n = -1.0L * n; n = (1 / len(n)) * n; if (f.second.size() > 2) return false;
    if (f.second.size() == 2) { int y = other(m.cells[f.second[1]], f.first); if (dot(p[y] - a, n) > 0) return false; if (dot(o[f.second[0]] - o[f.second[1]], n) < -1e-9L) return false; for (int k = 0; k < 3; ++k) inner[sorted({f.first[k], f.first[(k + 1) % 3]})]++; continue; }
    W fc = cc3(p[f.first[0]], p[f.first[1]], p[f.first[2]]); if (dot(o[f.second[0]] - fc, n) < -1e-9L) return false;
    for (int k = 0; k < 3; ++k) { int u = f.first[k], v = f.first[(k + 1) % 3], z = f.first[(k + 2) % 3]; if (height(fc, mid(p[u], p[v]), p[u], p[v], p[z]) < -1e-9L) return false; bf[sorted({u, v})]++; } }
  for (size_t i = 0; i < m.cells.size(); ++i) { Cell const & q = m.cells[i]; for (int u = 0; u < 4; ++u) for (int v = 0; v < u; ++v) { int w[2], n = 0; for (int k = 0; k < 4; ++k) if (k != u && k != v) w[n++] = k; W e = p[q[v]] - p[q[u]], x = p[q[w[0]]] - p[q[u]], y = p[q[w[1]]] - p[q[u]]; x = x - (dot(x, e) / dot(e, e)) * e; y = y - (dot(y, e) / dot(e, e)) * e; Key k = sorted({q[u], q[v]}); dih[k] += std::acos(std::max<LD>(-1, std::min<LD>(1, dot(x, y) / len(x) / len(y)))); ec[k].push_back((int)i); } }
  for (auto const & d : dih) { int b = bf.count(d.first) ? bf[d.first] : 0, in = inner.count(d.first) ? inner[d.first] : 0, n = (int)ec[d.first].size(); if (b == 0) { if (in != n || std::fabs(d.second - 2 * M_PIl) > 1e-6L) return false; } else if (b != 2 || in != n - 1 || d.second > M_PIl + 1e-9L) return false; }
  return true; }
template<> inline RefMesh gen<viennagrid::tetrahedron_tag>(Src & s, Case & c, int g) { typedef viennagrid::tetrahedron_tag T; RefMesh m; m.gdim = 3;
  if (s.chance(40)) { GridOpt o; o.jitter = o.perm = o.drop = o.embed = false; o.maxn = 2; m = grid<T>(s, 3, o); c.label("box tets"); }
  else if (s.chance(70)) { c.label("bcc"); long n[3]; for (int d = 0; d < 3; ++d) n[d] = s.size(1, 3); std::map<std::vector<long>, int> id; auto at = [&](long i, long j, long k) { std::vector<long> q = {i, j, k}; auto it = id.find(q); if (it == id.end()) { it = id.insert(std::make_pair(q, (int)m.pts.size())).first; m.pts.push_back({i / 2.0, j / 2.0, k / 2.0}); } return it->second; };
    for (int d = 0; d < 3; ++d) for (long i = 0; i < n[0]; ++i) for (long j = 0; j < n[1]; ++j) for (long k = 0; k < n[2]; ++k) { long x[3] = {i, j, k}; if (x[d] + 1 >= n[d] && n[d] > 1) continue; long y[3] = {2 * i + 1, 2 * j + 1, 2 * k + 1}; int a = at(y[0], y[1], y[2]); long z[3] = {y[0], y[1], y[2]}; z[d] += 2; int b = at(z[0], z[1], z[2]); int u = (d + 1) % 3, v = (d + 2) % 3; int q[4]; for (int r = 0; r < 4; ++r) { long w[3] = {y[0], y[1], y[2]}; w[d] += 1; w[u] += (r == 0 || r == 3) ? -1 : 1; w[v] += r < 2 ? -1 : 1; q[r] = at(w[0], w[1], w[2]); } for (int r = 0; r < 4; ++r) m.cells.push_back({a, b, q[r], q[(r + 1) % 4]}); }
    if (s.chance(60)) { std::vector<Cell> keep; int pct = (int)s.range(10, 70); for (auto & q : m.cells) if (!s.chance(pct)) keep.push_back(q); if (!keep.empty()) m.cells = keep; } }
  else { c.label("ring"); long n = s.range(4, 7), k = s.chance(60) ? n : s.range(1, (n + 1) / 2); m.pts.push_back({0, 0, -0.5}); m.pts.push_back({0, 0, 0.5}); for (long i = 0; i <= (k == n ? k - 1 : k); ++i) { double t = 2 * M_PI * (double)i / (double)n, R = 0.8; m.pts.push_back({R * std::cos(t), R * std::sin(t), 0.02 * (double)s.range_signed(4)}); } for (long i = 0; i < k; ++i) m.cells.push_back({0, 1, (int)(2 + i), (int)(2 + (i + 1) % n)}); }
  { std::map<int, int> u; for (auto & q : m.cells) for (int v : q) u[v] = 0; RefMesh t; t.gdim = 3; for (auto & k : u) { k.second = (int)t.pts.size(); t.pts.push_back(m.pts[(size_t)k.first]); } for (auto q : m.cells) { for (int & v : q) v = u[v]; t.cells.push_back(q); } m = t; }
  RefMesh base = m; double jit = s.chance(70) ? 0.3 : 0; for (int t = 0; t < 4 && jit > 0; ++t, jit /= 3) { m = base; for (auto & q : m.pts) for (double & x : q) x += jit * (double)s.range_signed(64) / 64.0; if (tets_ok(m, ws(m))) { c.label("jittered"); break; } m = base; }
  // remove cells until the conditions hold; a single box tet or bcc tet always satisfies them
  while (m.cells.size() > 1 && !tets_ok(m, ws(m))) m.cells.erase(m.cells.begin() + (long)s.draw(m.cells.size()));
  if (!tets_ok(m, ws(m))) { m.pts = {{0,0,0},{1,0,0},{0.5,0.9,0},{0.5,0.4,0.8}}; m.cells = {{0,1,2,3}}; }
  rotate(s, m, g, 3); finish<T>(s, m); return m; }

template<class M, class Dom> void verify(Case & c, RefMesh const & m, M const & mesh, Dom const & dom, std::vector<size_t> const & which, std::string const & what) {
  typedef typename Types<M>::CellTag T; typedef typename viennagrid::result_of::element<M, T>::type CellT; typedef typename viennagrid::result_of::element<M, viennagrid::vertex_tag>::type V; typedef typename viennagrid::result_of::element<M, viennagrid::line_tag>::type E;
  typedef typename viennagrid::result_of::const_cell_handle<Dom>::type CCH; typedef typename viennagrid::result_of::voronoi_cell_contribution<CCH>::type Con;
  std::vector<W> p = ws(m); Ref r; r.vol = 0; r.per_cell = true; r.vbox.assign(m.pts.size(), 0); r.cellvol.assign(m.cells.size(), 0); if ((int)Topo<T>::nv == 3) { std::map<Key, int> n; for (size_t i : which) for (auto const & f : boundary<T>(m.cells[i], 1)) ++n[sorted(f)]; for (auto const & x : n) if (x.second == 1) r.bnd.insert(x.first); } for (size_t i : which) { Dual<T>::run(p, m.cells[i], r, i); r.vol += r.cellvol[i]; }
  std::deque<double> ia, vb, eb; std::deque<Con> iac, vbc, ebc;
  viennagrid::apply_voronoi<CellT>(dom, viennagrid::make_field<E>(ia), viennagrid::make_field<E>(iac), viennagrid::make_field<V>(vb), viennagrid::make_field<V>(vbc), viennagrid::make_field<E>(eb), viennagrid::make_field<E>(ebc));
  LD L = 0; for (size_t i : which) for (int v : m.cells[i]) L = std::max(L, len(p[v] - p[m.cells[i][0]])); LD far = 0; for (auto const & q : p) far = std::max(far, len(q)); const int td = Topo<T>::tdim; LD rel = 1e-9L * (1 + far / L * 1e-3L), tv = rel * std::pow(L, (LD)td), ti = rel * (td == 1 ? 1 : std::pow(L, (LD)(td - 1)));
  auto sum = [](Con const & k) { LD t = 0; for (auto const & x : k) t += x.second; return t; }; std::vector<LD> pc(m.cells.size(), 0), pe(m.cells.size(), 0); LD sv = 0, se = 0; std::set<size_t> in(which.begin(), which.end());
  auto cells_of = [&](Con const & k, std::vector<LD> * acc, std::string const & w) { for (auto const & x : k) { size_t id = (size_t)viennagrid::dereference_handle(mesh, x.first).id().get(); VH_CHECK(in.count(id), what << w << ": contribution of a cell that is not part of it (cell " << id << ")"); if (acc) (*acc)[id] += x.second; } };
  auto ck = [&](LD got, LD want, LD tol, std::string const & w) { VH_CHECK(std::fabs(got - want) <= tol, what << w << " is " << (double)got << ", expected " << (double)want); };
  ia.resize(std::max(ia.size(), (size_t)viennagrid::elements<viennagrid::line_tag>(mesh).size())); eb.resize(ia.size()); iac.resize(ia.size()); ebc.resize(ia.size()); vb.resize(std::max(vb.size(), m.pts.size())); vbc.resize(vb.size());
  std::set<int> used; for (size_t i : which) for (int v : m.cells[i]) used.insert(v);
  for (size_t i = 0; i < m.pts.size(); ++i) { std::string w = "box volume of vertex " + std::to_string(i); ck(vb[i], r.vbox[i], tv, w); ck(sum(vbc[i]), vb[i], tv, "sum of the contributions to the " + w); cells_of(vbc[i], &pc, w); sv += vb[i]; }
  auto es = viennagrid::elements<viennagrid::line_tag>(mesh);
  for (size_t i = 0; i < es.size(); ++i) { Key k = sorted(vids(es[i])); size_t id = (size_t)es[i].id().get(); std::string w = " of edge " + str(k); LD wi = r.iface.count(k) ? r.iface[k] : 0, we = r.ebox.count(k) ? r.ebox[k] : 0;
    ck(ia[id], wi, ti, "interface area" + w); ck(eb[id], we, tv, "box volume" + w); ck(sum(iac[id]), ia[id], ti, "sum of the interface contributions" + w); ck(sum(ebc[id]), eb[id], tv, "sum of the box contributions" + w); cells_of(iac[id], 0, w); cells_of(ebc[id], &pe, w); se += eb[id]; }
  LD n = (LD)which.size() + 1; ck(sv, r.vol, tv * n, "sum of the vertex boxes"); ck(se, r.vol, tv * n, "sum of the edge boxes");
  if (r.per_cell) for (size_t i : which) { ck(pc[i], r.cellvol[i], tv * 4, "sum of the vertex contributions of cell " + std::to_string(i)); ck(pe[i], r.cellvol[i], tv * 4, "sum of the edge contributions of cell " + std::to_string(i)); }
  c.hit(which.size() > 1);
}
template<class M> void run(Src & s, Case & c) { typedef typename Types<M>::CellTag T; RefMesh m = gen<T>(s, c, (int)Types<M>::Point::dim); describe(c.desc, m); c.label("cells " + std::to_string(m.cells.size() / 4 * 4) + "+"); M mesh; build(mesh, m); std::vector<size_t> all; for (size_t i = 0; i < m.cells.size(); ++i) all.push_back(i); if (all.empty()) return;
  verify<M>(c, m, mesh, mesh, all, ""); }
// a part of the mesh on its own has to satisfy the conditions as well
template<class Tag> bool part_ok(RefMesh const &, std::vector<W> const &) { return true; }
template<> inline bool part_ok<viennagrid::tetrahedron_tag>(RefMesh const & m, std::vector<W> const & p) { return tets_ok(m, p); }
template<class M> void run_segment(Src & s, Case & c) { typedef typename Types<M>::CellTag T; typedef typename viennagrid::result_of::segmentation<M>::type SG; RefMesh m = gen<T>(s, c, (int)Types<M>::Point::dim); describe(c.desc, m); M mesh; build(mesh, m); if (m.cells.empty()) return; SG sg(mesh); auto cs = viennagrid::cells(mesh); size_t ns = (size_t)s.range(1, 3); std::vector<std::vector<size_t> > w(ns);
  std::vector<W> p = ws(m); LD L = 0; for (int v : m.cells[0]) L = std::max(L, len(p[v] - p[m.cells[0][0]])); W org = p[m.cells[0][0]]; for (auto & q : p) q = (1 / L) * (q - org);
  for (size_t i = 0; i < m.cells.size(); ++i) { size_t k = (size_t)s.draw(ns + 1); if (k < ns) w[k].push_back(i); }
  std::vector<typename viennagrid::result_of::segment_handle<SG>::type> sh; for (size_t k = 0; k < ns; ++k) { sh.push_back(sg.make_segment());
    for (;;) { RefMesh t; t.gdim = m.gdim; t.pts = m.pts; for (size_t i : w[k]) t.cells.push_back(m.cells[i]); if (w[k].empty() || part_ok<T>(t, p)) break; w[k].erase(w[k].begin() + (long)s.draw(w[k].size())); }
    c.desc << " s" << k << "="; for (size_t i : w[k]) { c.desc << i << " "; viennagrid::add(sh[k], cs.handle_at(i)); } }
  for (size_t k = 0; k < ns; ++k) if (!w[k].empty()) verify<M>(c, m, mesh, sh[k], w[k], "segment " + std::to_string(k) + ": "); }
