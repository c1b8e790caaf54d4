// C26: damaged files
#include "meshgen.hpp"
#include "meshfiles.hpp"
#include <cstring>
#include <unistd.h>
#include <sys/stat.h>
using namespace mg; using vh::Case;
namespace {
inline std::string slurp_(std::string const & f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
// spans of tokens: separated by white space and, for XML, by the characters of the syntax
inline std::vector<std::pair<size_t, size_t> > spans(std::string const & x, bool xml) { std::vector<std::pair<size_t, size_t> > r; size_t i = 0; auto brk = [&](char c) { return std::isspace((unsigned char)c) || (xml && std::strchr("<>=\"/", c)); }; while (i < x.size()) { if (brk(x[i])) { ++i; continue; } size_t j = i; while (j < x.size() && !brk(x[j])) ++j; r.push_back(std::make_pair(i, j)); i = j; } return r; }
inline std::string bad_token(Src & s) { static char const * t[] = {"-1", "0", "1", "2", "3", "7", "999999999", "2147483647", "2147483648", "-2147483649", "4294967296", "18446744073709551615", "99999999999999999999999", "1e400", "nan", "inf", "abc", "", "-", "#", "x1", "1x", "0x10", "3.5", "\"", "<", ">", "=", "/", "**face", "Region", "Elements (3)", "<DataArray>", "</DataArray>", "10", "4"}; return t[s.draw(sizeof t / sizeof *t)]; }
inline std::string damage(Src & s, std::string x, bool xml, std::ostream & d) {
  long k = s.chance(65) ? 1 : s.range(2, 5);
  for (long n = 0; n < k; ++n) {
    auto sp = spans(x, xml); auto tok = [&]() { return sp[(size_t)s.draw(sp.size())]; }; int what = (int)s.draw(10); d << " d" << what; if (x.empty()) { x = bad_token(s); continue; }
    switch (what) {
      case 0: x = x.substr(0, (size_t)s.draw(x.size() + 1)); break;                                            // truncated
      case 1: case 2: if (!sp.empty()) { auto t = tok(); std::string b = bad_token(s); d << "(" << x.substr(t.first, t.second - t.first) << "->" << b << ")"; x = x.substr(0, t.first) + b + x.substr(t.second); } break;   // token replaced
      case 3: if (!sp.empty()) { auto t = tok(); x = x.substr(0, t.first) + x.substr(t.second); } break;         // token dropped
      case 4: if (!sp.empty()) { auto t = tok(); x = x.substr(0, t.first) + x.substr(t.first, t.second - t.first) + " " + x.substr(t.first); } break;  // token doubled
      case 5: { size_t a = (size_t)s.draw(x.size()), b = (size_t)s.draw(x.size()); if (a > b) std::swap(a, b); x = x.substr(0, a) + x.substr(b); break; }     // middle lost
      case 6: { size_t a = (size_t)s.draw(x.size()); size_t e = x.find('\n', a), b = x.rfind('\n', a); b = b == std::string::npos ? 0 : b; if (e == std::string::npos) e = x.size(); if (b < e) x = s.chance(60) ? x.substr(0, b) + x.substr(e) : x.substr(0, e) + x.substr(b); break; }  // line lost or doubled
      case 7: x[(size_t)s.draw(x.size())] = (char)s.draw(256); break;                                          // byte changed
      case 8: { size_t a = (size_t)s.draw(x.size() + 1); std::string g; for (long i = 0, m = s.range(1, 6); i < m; ++i) g += (char)s.draw(256); x.insert(a, g); break; }
      default: if (sp.size() > 1) { auto a = tok(), b = tok(); if (a.first > b.first) std::swap(a, b); if (a.first != b.first) x = x.substr(0, a.first) + x.substr(b.first, b.second - b.first) + x.substr(a.second, b.first - a.second) + x.substr(a.first, a.second - a.first) + x.substr(b.second); } } }   // tokens exchanged
  return x;
}
// every element of the mesh can be visited
template<class M, class Tag> double visit(M const & m) { double sum = 0; typedef typename viennagrid::result_of::const_element_range<M, Tag>::type R; R r(m); for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { auto vs = viennagrid::vertices(*it); for (auto const & v : vs) sum += viennagrid::point(m, v)[0]; } return sum; }
// runs the reader; true when it reported an error
template<class F> bool rejects(F f) { try { f(); } catch (vh::Failure const &) { throw; } catch (std::exception const & e) { return true; } catch (...) { VH_CHECK(false, "the reader threw something that is no std::exception"); } return false; }
struct Quiet { std::streambuf * a, * b; std::ostringstream sink; Quiet() : a(std::cerr.rdbuf(sink.rdbuf())), b(std::cout.rdbuf(sink.rdbuf())) {} ~Quiet() { std::cerr.rdbuf(a); std::cout.rdbuf(b); } };
// a name that is no regular file
inline std::string no_file(Src & s, Case & c, char const * ext) { if (s.chance(70)) return c.scratch + "/absent" + ext; std::string d = c.scratch + "/dir" + ext; mkdir(d.c_str(), 0700); return d; }
}
