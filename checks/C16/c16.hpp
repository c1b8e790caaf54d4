#include <cstring>
#include <new>
#include "coords.hpp"
using namespace co;
static const LD TOL = 2e-7L;   // acos(z/r) in the converters to spherical coordinates is ill-conditioned at the poles
template<class P> LD tol() { return Info<P>::cartesian ? 1e-13L : TOL; }
template<> inline LD tol<Po>() { return 1e-12L; }
template<> inline LD tol<Cy>() { return 1e-12L; }
// conversion between two systems by converter object, constructor and assignment, and back
template<class A, class B> void conv(Src & s, vh::Case & c) {
  A a = gen<A>(s), a0(a); show(c.desc, a); V p = cart(a); LD t = std::max(tol<A>(), tol<B>()) * (len(p) + 1e-300L);
  viennagrid::coordinate_converter<A, B> cv; B b = cv(a); near(cart(b), p, t, std::string("converter ") + Info<A>::name() + " to " + Info<B>::name());
  B b2(a); near(cart(b2), p, t, "converting constructor"); B b3 = gen<B>(s); b3 = a; near(cart(b3), p, t, "converting assignment");
  A back(b); near(cart(back), p, t, std::string("round trip over ") + Info<B>::name()); near(cart(viennagrid::to_cartesian(a)), p, t, "to_cartesian"); near(cart(viennagrid::to_cartesian(b)), p, t, "to_cartesian of the converted point");
  for (int i = 0; i < (int)Info<A>::dim; ++i) VH_CHECK(a[(std::size_t)i] == a0[(std::size_t)i], "the source point was modified");
  c.hit(len(p) > 0);
}
template<class P> void same(P const & a, P const & b, char const * what) { for (int i = 0; i < (int)Info<P>::dim; ++i) VH_CHECK(a[(std::size_t)i] == b[(std::size_t)i], what << " changed"); }
template<class P> void arith(Src & s, vh::Case & c) {
  const int D = Info<P>::dim; P a = gen<P>(s), b = gen<P>(s); if (s.chance(15)) b = a; show(c.desc, a); show(c.desc, b); double f = s.chance(80) ? s.real() : (double)s.range_signed(1); c.desc << f; V p = cart(a), q = cart(b); LD L = len(p) + len(q) + 1e-300L, t = tol<P>() * L, F = std::fabs((LD)f); P a0(a), b0(b);
  near(cart(P(a + b)), p + q, t, "a + b"); same(a, a0, "a"); same(b, b0, "b"); near(cart(P(a - b)), p - q, t, "a - b"); near(cart(P(-a)), V() - p, t, "-a"); near(cart(P(a * f)), (LD)f * p, t * F + 1e-300L, "a * f"); near(cart(P(f * a)), (LD)f * p, t * F + 1e-300L, "f * a"); same(a, a0, "a"); same(b, b0, "b");
  if (f != 0) near(cart(P(a / f)), (1 / (LD)f) * p, t / F, "a / f");
  { P x(a); P & r = (x += b); near(cart(x), p + q, t, "a += b"); VH_CHECK(&r == &x, "a += b does not return a"); same(b, b0, "b"); } { P x(a); P & r = (x -= b); near(cart(x), p - q, t, "a -= b"); VH_CHECK(&r == &x, "a -= b does not return a"); same(b, b0, "b"); }
  { P x(a); P & r = (x *= f); near(cart(x), (LD)f * p, t * F + 1e-300L, "a *= f"); VH_CHECK(&r == &x, "a *= f does not return a"); } if (f != 0) { P x(a); P & r = (x /= f); near(cart(x), (1 / (LD)f) * p, t / F, "a /= f"); VH_CHECK(&r == &x, "a /= f does not return a"); }
  { P x(a); x += x; near(cart(x), p + p, 2 * t, "a += a"); } { P x(a); x -= x; near(cart(x), V(), t, "a -= a"); }
  // histories of in-place operations
  { P x(a); V v(p); LD e = t; int n = (int)s.size(0, 8); for (int i = 0; i < n; ++i) { P y = gen<P>(s); V w = cart(y); LD m = len(v) + len(w); switch (s.draw(3)) { case 0: x += y; v = v + w; e += tol<P>() * m; break; case 1: x -= y; v = v - w; e += tol<P>() * m; break; default: { double g = (double)s.range_signed(8) / 4.0; x *= g; v = (LD)g * v; e = e * std::max<LD>(1, std::fabs((LD)g)) + tol<P>() * m * std::max<LD>(1, std::fabs((LD)g)); } } } near(cart(x), v, 2 * e, "sequence of in-place operations"); }
  // stored coordinates
  VH_EQ((std::size_t)a.size(), (std::size_t)D, "size()"); VH_EQ(viennagrid::dynamic_size(a), (std::size_t)D, "dynamic_size"); P lo = viennagrid::min(a, b), hi = viennagrid::max(a, b); int less = 0; for (int i = 0; i < D; ++i) { std::size_t k = (std::size_t)i; VH_EQ(lo[k], std::min(a[k], b[k]), "component of min"); VH_EQ(hi[k], std::max(a[k], b[k]), "component of max"); if (!less) less = a[k] < b[k] ? -1 : a[k] > b[k] ? 1 : 0; VH_EQ(*(a.begin() + i), a[k], "iteration"); VH_EQ(a.at((typename P::size_type)i), a[k], "at()"); }
  viennagrid::point_less pl; VH_EQ(pl(a, b), less < 0, "point_less(a,b)"); VH_EQ(pl(b, a), less > 0, "point_less(b,a)"); VH_CHECK(!pl(a, a), "point_less is not irreflexive");
  { P z = a; for (int i = 0; i < D; ++i) { P y(a); std::size_t k = (std::size_t)i; y[k] += 1; VH_CHECK(pl(a, y) && !pl(y, a), "point_less ignores component " << i); z[k] = s.real(); } for (int i = 0; i < D; ++i) { P y(z); std::size_t k = (std::size_t)i; double w = s.real(); y[k] = w; VH_EQ(y[k], w, "component write"); for (int j = 0; j < D; ++j) if (j != i) VH_EQ(y[(std::size_t)j], z[(std::size_t)j], "another component changed by a write"); } }
  { alignas(16) unsigned char raw[sizeof(P)]; std::memset(raw, 0x5a, sizeof raw); P & zero = *new (raw) P; for (int i = 0; i < D; ++i) VH_EQ(zero[(std::size_t)i], 0.0, "default constructed component"); P w(1.5, 2.5, 3.5); for (int i = 0; i < D; ++i) VH_EQ(w[(std::size_t)i], 1.5 + i, "component given to the constructor"); P w2(f); VH_EQ(w2[0], f, "first component of the one-argument constructor"); for (int i = 1; i < D; ++i) VH_EQ(w2[(std::size_t)i], 0.0, "missing component of the constructor"); }
  { std::ostringstream o1, o2; o1 << a; o2 << "("; for (int i = 0; i < D; ++i) o2 << a[(std::size_t)i] << (i + 1 < D ? " " : ""); o2 << ")"; VH_EQ(o1.str(), o2.str(), "stream output"); }
  c.hit(len(p) > 0 && len(q) > 0 && f != 0);
}
