// Property-based testing engine: choice-sequence generation with internal shrinking.
// A case is a pure function of a sequence of bounded integer choices (Src).  Choices come from a
// PRNG seeded by (VERIF_SEED, sub-check, case index); replay and shrinking feed an explicit sequence.
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <algorithm>
#include <exception>
#include <functional>

namespace vh {

struct Failure : public std::exception {
  std::string msg;
  explicit Failure(std::string const & m) : msg(m) {}
  ~Failure() throw() {}
  const char * what() const throw() { return msg.c_str(); }
};

extern uint64_t * g_sink;            // shared memory: [0]=count, then the choices (survives a crash)
static const uint64_t SINK_CAP = 1u << 18;
class Src {
public:
  explicit Src(uint64_t seed) : st_(seed), replay_(0), pos_(0) {}
  explicit Src(std::vector<uint64_t> const & buf) : st_(0), replay_(&buf), pos_(0) {}
  // uniform choice in [0,n); 0 is the simplest value
  uint64_t draw(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (replay_) { v = pos_ < replay_->size() ? (*replay_)[pos_] : 0; if (v >= n) v = n - 1; }
    else v = next() % n;
    ++pos_;
    rec_.push_back(v);
    if (g_sink && rec_.size() < SINK_CAP) { g_sink[rec_.size()] = v; g_sink[0] = rec_.size(); }
    return v;
  }
  long range(long lo, long hi) { return hi <= lo ? lo : lo + (long)draw((uint64_t)(hi - lo + 1)); }
  bool chance(int percent) { return (int)draw(100) >= 100 - percent; }
  // skewed size in [lo,hi]: mostly small, sometimes up to hi
  long size(long lo, long hi) {
    int k = (int)draw(4);
    long span = hi - lo;
    long m = k == 0 ? std::min<long>(span, 2) : k == 1 ? std::max<long>(1, span / 4) : k == 2 ? std::max<long>(1, span / 2) : span;
    if (m > span) m = span;
    return lo + (long)draw((uint64_t)m + 1);
  }
  template<class T> T const & pick(std::vector<T> const & v) { return v[(std::size_t)draw(v.size())]; }
  template<class T> void shuffle(std::vector<T> & v) {
    for (std::size_t i = 0; i + 1 < v.size(); ++i) std::swap(v[i], v[i + (std::size_t)draw(v.size() - i)]);
  }
  // doubles of many magnitudes; 0 is simplest
  double real(double scale = 1.0) {
    switch (draw(4)) {
      case 0: return scale * (double)range_signed(8);
      case 1: return scale * (double)range_signed(64) / 8.0;
      case 2: return scale * (double)range_signed(1000000) / 997.0;
      default: return scale * (double)range_signed(1000000000L) / 99999989.0;
    }
  }
  long range_signed(long m) { long v = (long)draw((uint64_t)(2 * m + 1)); return (v & 1) ? -(v + 1) / 2 : v / 2; }
  std::vector<uint64_t> const & record() const { return rec_; }
private:
  uint64_t next() {
    uint64_t z = (st_ += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t st_;
  std::vector<uint64_t> const * replay_;
  std::size_t pos_;
  std::vector<uint64_t> rec_;
};

struct Case {
  bool nontrivial;
  std::ostringstream desc;
  std::set<std::string> labels;
  std::string scratch;       // scratch directory private to this process
  Case() : nontrivial(false) {}
  void label(std::string const & l) { labels.insert(l); }
  void hit(bool c = true) { if (c) nontrivial = true; }
};

typedef void (*SubFn)(Src &, Case &);
struct Sub { std::string name; SubFn fn; double weight; };
std::vector<Sub> & registry();
struct Reg { Reg(char const * n, SubFn f, double w) { Sub s; s.name = n; s.fn = f; s.weight = w; registry().push_back(s); } };

inline void fail(std::string const & m) { throw Failure(m); }

} // namespace vh

#define VH_SUB(name, weight) static void name(vh::Src & s, vh::Case & c); \
  static vh::Reg reg_##name(#name, name, weight); \
  static void name(vh::Src & s, vh::Case & c)
// registration of a template instance or named function
#define VH_REG(id, strname, fn, weight) static vh::Reg reg_##id(strname, fn, weight)

#define VH_CHECK(cond, expr) do { if (!(cond)) { std::ostringstream vh_os; vh_os.precision(17); vh_os << expr << "  [" #cond "]"; throw vh::Failure(vh_os.str()); } } while (0)
#define VH_EQ(a, b, expr) do { auto vh_a = (a); auto vh_b = (b); if (!(vh_a == vh_b)) { std::ostringstream vh_os; vh_os.precision(17); vh_os << expr << ": got " << vh_a << ", expected " << vh_b; throw vh::Failure(vh_os.str()); } } while (0)

#endif
