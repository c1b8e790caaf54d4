// Independent view of VTK XML files: a small parser (oracle for the writer) and an emitter (input for the reader).
#ifndef VTU_HPP
#define VTU_HPP
#include "vh.hpp"
#include <fstream>
namespace vtu {
typedef std::map<std::string, std::string> Attr;
struct Arr { std::string section, name; int comps; std::vector<std::string> tok; std::vector<double> num() const { std::vector<double> r; for (auto const & t : tok) { char * e = 0; double d = std::strtod(t.c_str(), &e); VH_CHECK(e && *e == 0 && e != t.c_str(), "value '" << t << "' in the file is not a number"); r.push_back(d); } return r; } };
struct File { long npts, ncells; std::vector<Arr> arrays; Arr const * find(std::string const & sec, std::string const & n, int comps = 0) const { for (auto const & a : arrays) if (a.section == sec && a.name == n && (!comps || a.comps == comps)) return &a; return 0; } };
inline std::string slurp(std::string const & f) { std::ifstream in(f.c_str(), std::ios::binary); VH_CHECK(in.good(), "file was not written: " << f.substr(f.rfind('/') + 1)); std::ostringstream o; o << in.rdbuf(); return o.str(); }
inline bool exists(std::string const & f) { std::ifstream in(f.c_str()); return in.good(); }
inline std::vector<std::string> split(std::string const & s) { std::istringstream in(s); std::vector<std::string> r; std::string t; while (in >> t) r.push_back(t); return r; }
// event parser: calls tag(name, attributes, closing, text that followed)
struct Ev { std::string name; bool closing, empty; Attr at; std::string text; };
inline std::vector<Ev> events(std::string const & s) {
  std::vector<Ev> r; size_t i = 0; std::vector<std::string> open;
  while ((i = s.find('<', i)) != std::string::npos) {
    Ev e; e.closing = e.empty = false; ++i; size_t j = i; bool q = false; while (j < s.size() && (q || s[j] != '>')) { if (s[j] == '"') q = !q; ++j; } VH_CHECK(j < s.size(), "unterminated tag in the written file");
    std::string b = s.substr(i, j - i); i = j + 1;
    if (!b.empty() && b[0] == '?') continue;
    if (!b.empty() && b[0] == '/') { e.closing = true; b = b.substr(1); } else if (!b.empty() && b[b.size() - 1] == '/') { e.empty = true; b.resize(b.size() - 1); }
    size_t k = 0; while (k < b.size() && !isspace((unsigned char)b[k])) ++k; e.name = b.substr(0, k);
    while (k < b.size()) { while (k < b.size() && isspace((unsigned char)b[k])) ++k; if (k >= b.size()) break; size_t eq = b.find("=\"", k); VH_CHECK(eq != std::string::npos, "malformed attribute in the written file"); size_t en = b.find('"', eq + 2); VH_CHECK(en != std::string::npos, "malformed attribute in the written file"); VH_CHECK(!e.at.count(b.substr(k, eq - k)), "attribute given twice"); e.at[b.substr(k, eq - k)] = b.substr(eq + 2, en - eq - 2); k = en + 1; }
    size_t nx = s.find('<', i); e.text = s.substr(i, (nx == std::string::npos ? s.size() : nx) - i);
    if (e.closing) { VH_CHECK(!open.empty() && open.back() == e.name, "tags of the written file are not balanced"); open.pop_back(); } else if (!e.empty) open.push_back(e.name);
    r.push_back(e);
  }
  VH_CHECK(open.empty(), "tags of the written file are not balanced"); return r;
}
inline File parse(std::string const & fn) {
  File f; f.npts = f.ncells = -1; std::string sec; bool grid = false;
  for (auto const & e : events(slurp(fn))) {
    if (e.name == "VTKFile" && !e.closing) { auto it = e.at.find("type"); grid = it != e.at.end() && it->second == "UnstructuredGrid"; }
    if (e.name == "Piece" && !e.closing) { VH_CHECK(f.npts < 0, "more than one piece"); f.npts = std::atol(e.at.at("NumberOfPoints").c_str()); f.ncells = std::atol(e.at.at("NumberOfCells").c_str()); }
    if (e.name == "Points" || e.name == "PointData" || e.name == "Cells" || e.name == "CellData") sec = e.closing ? "" : e.name;
    if (e.name == "DataArray" && !e.closing) { Arr a; a.section = sec; a.name = e.at.count("Name") ? e.at.at("Name") : ""; a.comps = e.at.count("NumberOfComponents") ? std::atoi(e.at.at("NumberOfComponents").c_str()) : 1; a.tok = split(e.text); VH_CHECK(e.at.count("format") && e.at.at("format") == "ascii", "array format"); f.arrays.push_back(a); }
  }
  VH_CHECK(grid && f.npts >= 0 && f.ncells >= 0, "not an unstructured grid file"); return f;
}
} // namespace vtu
#endif
