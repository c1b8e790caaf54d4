// Generators of Netgen, Tetgen .poly, BND and Neper .tess files together with the content they describe (used by C24, C26).
#ifndef MESHFILES_HPP
#define MESHFILES_HPP
#include "vh.hpp"
#include <fstream>
namespace mf {
using vh::Src; typedef std::vector<double> Pt; typedef std::vector<int> Ints;
inline void write(std::string const & file, std::string const & text) { std::ofstream f(file.c_str(), std::ios::binary); f << text; }
// the text of a number; its value is what strtod makes of the text
inline std::string num(Src & s) {
  char b[80]; double v = s.real();
  switch (s.draw(8)) {
    case 0: std::snprintf(b, sizeof b, "%ld", s.range_signed(50)); break;
    case 1: std::snprintf(b, sizeof b, "%.17g", v); break;
    case 2: std::snprintf(b, sizeof b, "%.3f", v); break;
    case 3: std::snprintf(b, sizeof b, "%.16e", v); break;
    case 4: std::snprintf(b, sizeof b, "%+.10E", v * 1e7); break;
    case 5: std::snprintf(b, sizeof b, "%.6g", v * 1e-9); break;
    case 6: std::snprintf(b, sizeof b, "%ld.", s.range_signed(50)); break;
    default: std::snprintf(b, sizeof b, "%s.%02ld", s.chance(50) ? "-" : "", s.range(0, 99)); break;
  }
  return b;
}
inline double val(std::string const & t) { return std::strtod(t.c_str(), 0); }
inline std::vector<std::string> numbers(Src & s, int n) { std::vector<std::string> r; for (int i = 0; i < n; ++i) r.push_back(num(s)); return r; }
inline Pt values(std::vector<std::string> const & t) { Pt p; for (auto const & x : t) p.push_back(val(x)); return p; }
// white space styles: sep() inside a line, eol() at the end of one
struct Ws {
  Src & s; int style; bool crlf; char comment; Ws(Src & src, bool allow_crlf, char cm = 0) : s(src), style((int)src.draw(4)), crlf(allow_crlf && src.chance(20)), comment(cm) {}
  std::string sep() { switch (style) { case 0: return " "; case 1: return "\t"; case 2: return std::string((size_t)s.range(1, 4), ' '); default: return s.chance(50) ? " \t" : "  "; } }
  std::string lead() { return style >= 2 && s.chance(60) ? std::string((size_t)s.range(1, 3), s.chance(70) ? ' ' : '\t') : ""; }
  std::string eol() {
    std::string r; if (style == 3 && s.chance(40)) r += s.chance(50) ? " " : "\t"; if (comment && s.chance(8)) { r += comment; r += " 3 4 note "; r += comment; } r += crlf ? "\r\n" : "\n";
    if (comment) while (s.chance(12)) { switch (s.draw(4)) { case 0: r += ""; break; case 1: r += "  "; break; case 2: r += "\t "; break; default: r += (s.chance(50) ? "  " : ""); r += comment; r += " 7 8 comment"; } r += crlf ? "\r\n" : "\n"; }
    return r; }
  template<class V> std::string list(V const & v) { std::ostringstream o; for (auto const & x : v) o << sep() << x; return o.str(); }
};
inline std::vector<int> distinct(Src & s, int k, int n) { std::vector<int> idx, r; for (int i = 0; i < n; ++i) idx.push_back(i); for (int i = 0; i < k; ++i) { size_t j = (size_t)i + (size_t)s.draw((uint64_t)(n - i)); std::swap(idx[(size_t)i], idx[j]); r.push_back(idx[(size_t)i]); } return r; }

// ---- Netgen: number of vertices, coordinates, number of cells, per cell the segment index and 1-based vertex indices ----
struct Netgen { std::vector<Pt> pts; std::vector<Ints> cells; Ints seg; std::string text; };
inline Netgen netgen(Src & s, int dim, int nv, long maxc = 12) {
  Netgen f; Ws w(s, true); std::ostringstream o; bool oneline = s.chance(15); auto nl = [&]() { return oneline ? (s.chance(50) ? std::string(" ") : std::string("\t")) : w.eol(); };
  long n = s.size(nv, 14); o << w.lead() << n << nl();
  for (long i = 0; i < n; ++i) { auto t = numbers(s, dim); f.pts.push_back(values(t)); o << w.lead(); for (size_t k = 0; k < t.size(); ++k) o << (k ? w.sep() : "") << t[k]; o << nl(); }
  std::vector<int> ids; long ni = s.range(1, 4); bool cont = s.chance(70); for (long i = 0; i < ni; ++i) ids.push_back(cont ? (int)i + 1 : (int)s.draw(20)); bool noise = s.chance(20);
  std::set<Ints> seen; std::vector<Ints> cells; long nc = s.size(0, maxc); for (long i = 0; i < nc; ++i) { Ints c = distinct(s, nv, (int)n), k(c); std::sort(k.begin(), k.end()); if (seen.insert(k).second) cells.push_back(c); }
  o << w.lead() << cells.size() << nl();
  for (auto const & c : cells) { int g = s.pick(ids); f.cells.push_back(c); f.seg.push_back(g); o << w.lead() << g; for (int v : c) o << w.sep() << v + 1; o << nl(); }
  f.text = o.str();
  if (noise) f.text += s.chance(50) ? "0\n" : "2\n1 1 2 3\n1 2 3 4\n";      // surface elements of the neutral format, which are not part of the mesh
  else if (s.chance(30)) while (!f.text.empty() && std::isspace((unsigned char)f.text[f.text.size() - 1])) f.text.erase(f.text.size() - 1);
  return f;
}

// ---- Tetgen .poly ----
struct Facet { std::vector<Ints> polys; std::vector<Pt> holes; };     // vertex positions
struct Poly { std::vector<Pt> pts; std::vector<long> ids; std::vector<Facet> facets; std::vector<Pt> holes; std::vector<std::pair<Pt, int> > seeds; int tail; std::string text; };
inline Poly poly(Src & s, int dim) {
  Poly f; Ws w(s, true, '#'); std::ostringstream o; if (s.chance(30)) o << "# a comment" << w.eol();
  long n = s.size(3, 12); int attr = (int)s.draw(3), marker = (int)s.draw(2); long base = (long)s.draw(3); if (base == 2) base = (long)s.draw(50); bool gaps = s.chance(25);
  o << w.lead() << n << w.sep() << dim << w.sep() << attr << w.sep() << marker << w.eol();
  for (long i = 0; i < n; ++i) { f.ids.push_back(base++); if (gaps) base += (long)s.draw(3); } if (s.chance(20)) s.shuffle(f.ids);
  for (long i = 0; i < n; ++i) { auto t = numbers(s, dim); f.pts.push_back(values(t)); o << w.lead() << f.ids[(size_t)i] << w.list(t); for (int a = 0; a < attr; ++a) o << w.sep() << num(s); if (marker) o << w.sep() << s.draw(5); o << w.eol(); }
  long nf = s.size(0, 6); int fm = (int)s.draw(2); o << w.lead() << nf; if (fm || s.chance(70)) o << w.sep() << fm; o << w.eol();
  for (long i = 0; i < nf; ++i) {
    Facet q; long np = s.size(1, 4), nh = s.chance(35) ? s.range(1, 3) : 0;
    for (long j = 0; j < np; ++j) { int k = (int)s.size(j == 0 ? 2 : 1, std::min<long>(n, 7)); q.polys.push_back(distinct(s, k, (int)n)); }
    o << w.lead() << np; if (nh || fm || s.chance(60)) o << w.sep() << nh; if (fm) o << w.sep() << s.range(0, 9); o << w.eol();
    for (auto const & p : q.polys) { o << w.lead() << p.size(); for (int v : p) o << w.sep() << f.ids[(size_t)v]; o << w.eol(); }
    for (long j = 0; j < nh; ++j) { auto t = numbers(s, dim); q.holes.push_back(values(t)); o << w.lead() << j + 1 << w.list(t) << w.eol(); }
    f.facets.push_back(q); }
  f.tail = s.chance(80) ? 2 : (int)s.draw(2);
  if (f.tail > 0) { long k = s.size(0, 4); o << w.lead() << k << w.eol(); for (long i = 0; i < k; ++i) { auto t = numbers(s, dim); f.holes.push_back(values(t)); o << w.lead() << i + 1 << w.list(t) << w.eol(); } }
  if (f.tail > 1) { long k = s.size(0, 4); o << w.lead() << k << w.eol(); for (long i = 0; i < k; ++i) { auto t = numbers(s, dim); int id = (int)s.range_signed(9); f.seeds.push_back(std::make_pair(values(t), id)); o << w.lead() << i + 1 << w.list(t) << w.sep() << id; if (s.chance(40)) o << w.sep() << "0.1"; o << w.eol(); } }
  f.text = o.str(); if (s.chance(25)) while (!f.text.empty() && (f.text[f.text.size() - 1] == '\n' || f.text[f.text.size() - 1] == '\r')) f.text.erase(f.text.size() - 1);
  return f;
}

// ---- BND ----
struct BndSeg { std::vector<Ints> polys; std::vector<bool> flipped; std::string name, material; };
struct BndContact { std::string name; std::vector<Ints> faces; };
struct Bnd { int dim; std::vector<Pt> pts; std::vector<BndSeg> segs; std::vector<BndContact> contacts; std::string text; };
inline Bnd bnd(Src & s, int dim, bool triangles) {
  Bnd f; f.dim = dim; std::ostringstream o, e; Ws w(s, false); long n = s.size(dim == 3 && triangles ? 4 : 3, 12);
  std::vector<std::vector<std::string> > t; for (long i = 0; i < n; ++i) { t.push_back(numbers(s, dim)); f.pts.push_back(values(t.back())); }
  std::vector<Ints> edges; std::map<Ints, int> eidx;
  auto edge = [&](int a, int b) -> int { Ints k{std::min(a, b), std::max(a, b)}; auto it = eidx.find(k); if (it == eidx.end()) { it = eidx.insert(std::make_pair(k, (int)edges.size())).first; edges.push_back(s.chance(50) ? Ints{a, b} : Ints{b, a}); } int i = it->second; return edges[(size_t)i][0] == a ? i : -i - 1; };
  std::vector<Ints> faces, fedges; std::set<Ints> seenf;
  auto cycle = [&](int k) -> bool { Ints q = distinct(s, k, (int)n), key(q); std::sort(key.begin(), key.end()); if (!seenf.insert(key).second) return false; Ints es; for (int i = 0; i < k; ++i) es.push_back(edge(q[(size_t)i], q[(size_t)((i + 1) % k)])); faces.push_back(q); fedges.push_back(es); return true; };
  if (dim == 3) { long nf = s.size(1, 10); for (long i = 0; i < nf; ++i) cycle(triangles ? 3 : (int)s.size(3, std::min<long>(n, 6))); }
  else { long ne = s.size(1, 10); for (long i = 0; i < ne; ++i) { Ints q = distinct(s, 2, (int)n); edge(q[0], q[1]); } }
  long ns = s.size(1, 4); std::ostringstream el; int nel = 0;
  for (long g = 0; g < ns; ++g) {
    BndSeg q; std::ostringstream nm; nm << (s.chance(30) ? "Bulk region_" : "seg") << g; q.name = nm.str(); q.material = s.chance(50) ? "Silicon" : "Oxide";
    int pool = dim == 3 ? (int)faces.size() : (int)edges.size(); Ints pick = distinct(s, (int)s.size(1, pool), pool);
    el << w.lead() << (dim == 3 ? 10 : 4) << w.sep() << pick.size();
    for (size_t i = 0; i < pick.size(); ++i) { bool neg = s.chance(35); int k = pick[i]; el << ((i + 2) % 10 == 0 ? "\n " : w.sep()) << (neg ? -k - 1 : k); if (dim == 3) q.polys.push_back(faces[(size_t)k]); else q.polys.push_back(edges[(size_t)k]); q.flipped.push_back(neg); }
    el << "\n"; ++nel; f.segs.push_back(q); }
  // contacts
  long nc = s.chance(50) ? s.range(1, 3) : 0; std::vector<std::vector<int> > cidx;
  for (long i = 0; i < nc; ++i) { BndContact q; std::ostringstream nm; nm << "contact" << i; q.name = nm.str(); std::vector<int> ids; long k = s.range(1, 3);
    for (long j = 0; j < k; ++j) { Ints v = distinct(s, dim, (int)n); if (dim == 2) el << w.lead() << 1 << w.sep() << v[0] << w.sep() << v[1] << "\n"; else { int a = edge(v[0], v[1]), b = edge(v[1], v[2]), d = edge(v[2], v[0]); el << w.lead() << 2 << w.sep() << a << w.sep() << b << w.sep() << d << "\n"; } q.faces.push_back(v); ids.push_back(nel++); }
    cidx.push_back(ids); f.contacts.push_back(q); }
  // regions: sometimes one region of several elements
  std::vector<std::vector<int> > reg; for (long g = 0; g < ns; ++g) { if (g && s.chance(20)) { reg.back().push_back((int)g); f.segs[(size_t)g].name = f.segs[(size_t)g - 1].name; f.segs[(size_t)g].material = f.segs[(size_t)g - 1].material; } else reg.push_back(std::vector<int>(1, (int)g)); }
  o << "DF-ISE text\n\nInfo {\n  version = 1.1\n  type    = boundary\n  dimension   = " << dim << "\n  nb_vertices = " << n << "\n  nb_edges    = " << edges.size() << "\n  nb_faces    = " << faces.size() << "\n  nb_elements = " << nel << "\n  nb_regions  = " << reg.size() + (size_t)nc << "\n  regions     = [ ";
  for (auto const & r : reg) o << "\"" << f.segs[(size_t)r[0]].name << "\" "; for (auto const & q : f.contacts) o << "\"" << q.name << "\" "; o << "]\n  materials   = [ "; for (auto const & r : reg) o << f.segs[(size_t)r[0]].material << " "; for (size_t i = 0; i < f.contacts.size(); ++i) o << "Contact "; o << "]\n}\n\nData {\n\n";
  if (s.chance(70)) o << "  CoordSystem {\n    translate = [  0 0 0 ]\n    transform = [  1 0 0\n 0 1 0\n 0 0 1\n ]\n  }\n\n";
  o << "  Vertices (" << n << ") {\n"; for (auto const & x : t) { o << w.lead(); for (size_t k = 0; k < x.size(); ++k) o << (k ? w.sep() : "") << x[k]; o << "\n"; } o << "\n  }\n\n";
  o << "  Edges (" << edges.size() << ") {\n"; for (auto const & x : edges) o << w.lead() << x[0] << w.sep() << x[1] << "\n"; o << "\n  }\n\n";
  if (dim == 3) { o << "  Faces (" << faces.size() << ") {\n"; for (auto const & x : fedges) { o << w.lead() << x.size(); for (int v : x) o << w.sep() << v; o << "\n"; } o << "\n  }\n\n"; }
  o << "  Elements (" << nel << ") {\n" << el.str() << "\n  }\n\n";
  struct R { std::string name, mat; std::vector<int> el; }; std::vector<R> rs; for (auto const & r : reg) { R x; x.name = f.segs[(size_t)r[0]].name; x.mat = f.segs[(size_t)r[0]].material; x.el = r; rs.push_back(x); } for (size_t i = 0; i < f.contacts.size(); ++i) { R x; x.name = f.contacts[i].name; x.mat = "Contact"; x.el = cidx[i]; rs.push_back(x); }
  if (s.chance(20)) { s.shuffle(rs); std::vector<BndContact> cs; for (auto const & r : rs) for (auto const & q : f.contacts) if (q.name == r.name) cs.push_back(q); f.contacts = cs; }
  for (auto const & r : rs) { o << "  Region (\"" << (s.chance(15) ? " " : "") << r.name << (s.chance(15) ? "  " : "") << "\") {\n    material = " << r.mat << (s.chance(20) ? "  " : "") << "\n    Elements (" << r.el.size() << ") {\n "; for (int x : r.el) o << x << " "; o << "\n    }\n  }\n\n"; }
  o << "}\n"; f.text = o.str(); return f;
}

// ---- Neper .tess ----
struct Tess { std::vector<Pt> pts; std::vector<Ints> faces; std::vector<std::pair<Pt, int> > seeds; std::string text; };
inline Tess tess(Src & s, int dim) {
  Tess f; Ws w(s, false); std::ostringstream o; long n = s.size(3, 12), base = s.chance(70) ? 1 : (long)s.draw(40); std::vector<int> ids; for (long i = 0; i < n; ++i) ids.push_back((int)(base + i)); if (s.chance(30)) s.shuffle(ids);
  o << "***tess\n **format\n   1.10\n **general\n   3 standard\n"; if (s.chance(50)) o << " **cell\n   2\n"; std::string sec = " **"; if (s.chance(25)) sec = s.chance(50) ? "**" : "    **";
  o << sec << "vertex\n" << w.lead() << n << "\n"; for (long i = 0; i < n; ++i) { auto t = numbers(s, 3); Pt p = values(t); p.resize((size_t)dim); f.pts.push_back(p); o << w.lead() << ids[(size_t)i] << w.sep() << 3 << w.list(Ints{1, 2, 3}) << "\n" << w.lead() << "-1\n" << w.lead(); for (size_t k = 0; k < 3; ++k) o << (k ? w.sep() : "") << t[k]; if (s.chance(50)) o << w.sep() << 0; o << "\n"; }
  if (s.chance(60)) { o << sec << "edge\n   1\n   1 1 2 2 1 2\n   0\n"; }
  long nf = s.size(0, 8); std::set<Ints> seen; std::vector<Ints> faces; for (long i = 0; i < nf; ++i) { Ints q = distinct(s, (int)s.size(3, std::min<long>(n, 7)), (int)n), k(q); std::sort(k.begin(), k.end()); if (seen.insert(k).second) faces.push_back(q); } f.faces = faces;
  o << sec << "face\n" << w.lead() << faces.size() << "\n"; for (size_t i = 0; i < faces.size(); ++i) { o << w.lead() << i + 1 << w.sep() << "1 2\n" << w.lead() << "2 1 2\n" << w.lead() << "-1\n" << w.lead() << faces[i].size(); for (int v : faces[i]) o << w.sep() << ids[(size_t)v]; o << "\n" << w.lead() << faces[i].size() << " 1 2 3\n" << w.lead() << "0.5 0 0 1\n" << w.lead() << "0 0 0 0\n"; }
  if (s.chance(80)) { long np = s.size(0, 5); o << sec << "polyhedron\n" << w.lead() << np << "\n"; for (long i = 0; i < np; ++i) { auto t = numbers(s, 3); int id = (int)s.draw(30); Pt p = values(t); p.resize((size_t)dim); f.seeds.push_back(std::make_pair(p, id)); o << w.lead() << id << w.list(t) << "\n" << w.lead() << "4 1 2 3 4\n" << w.lead() << "6 1 2 3 4 5 6\n"; } }
  o << "***end\n"; f.text = o.str(); return f;
}
}
#endif
