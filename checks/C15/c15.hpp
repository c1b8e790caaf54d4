#include "coords.hpp"
#include "viennagrid/algorithm/inner_prod.hpp"
#include "viennagrid/algorithm/cross_prod.hpp"
#include "viennagrid/algorithm/norm.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#include "viennagrid/algorithm/angle.hpp"
#include "viennagrid/algorithm/spanned_volume.hpp"
using namespace co;
inline void eq(LD got, LD want, LD scale, std::string const & what, LD rel = 1e-12L) { VH_CHECK(std::fabs(got - want) <= rel * scale, what << ": got " << (double)got << ", expected " << (double)want); }
inline LD amax(V const & a) { LD r = 0; for (int i = 0; i < 3; ++i) r = std::max(r, std::fabs(a[i])); return r; }
inline LD vol2(V const & a, V const & b) { return len(b - a); }
inline LD vol3(V const & a, V const & b, V const & c) { return len(cross(b - a, c - a)) / 2; }
inline LD svol3(V const & a, V const & b, V const & c) { return cross(b - a, c - a)[2] / 2; }
inline LD svol4(V const & a, V const & b, V const & c, V const & d) { return dot(b - a, cross(c - a, d - a)) / 6; }
// conversions of spherical / cylindrical results go through acos/atan2: looser near the pole
template<class P> LD rtol() { return Info<P>::cartesian ? 1e-12L : 1e-7L; }
template<int D> struct Vol { // spanned volumes of mixed coordinate systems
  template<class A, class B, class X, class Y> static void check(A const &, B const &, X const &, Y const &, V const &, V const &, V const &, V const &, LD) {} };
template<> struct Vol<2> { template<class A, class B, class X, class Y> static void check(A const & a, B const & b, X const & x, Y const &, V const & p, V const & q, V const & u, V const &, LD L) {
  eq(viennagrid::signed_spanned_volume(a, b, x), svol3(p, q, u), L * L, "signed area of a triangle in the plane"); eq(viennagrid::spanned_volume(a, b, x), vol3(p, q, u), L * L, "area of a triangle in the plane");
  eq(viennagrid::signed_spanned_volume(b, a, x), -svol3(p, q, u), L * L, "signed area with two vertices swapped"); } };
template<> struct Vol<3> { template<class A, class B, class X, class Y> static void check(A const & a, B const & b, X const & x, Y const & y, V const & p, V const & q, V const & u, V const & w, LD L) {
  eq(viennagrid::spanned_volume(a, b, x), vol3(p, q, u), L * L, "area of a triangle in space"); 
  eq(viennagrid::signed_spanned_volume(a, b, x, y), svol4(p, q, u, w), L * L * L, "signed volume of a tetrahedron"); eq(viennagrid::spanned_volume(a, b, x, y), std::fabs(svol4(p, q, u, w)), L * L * L, "volume of a tetrahedron");
  eq(viennagrid::spanned_volume(y, x, a, b), std::fabs(svol4(p, q, u, w)), L * L * L, "volume of a tetrahedron in another vertex order"); } };
template<int D> struct Det { template<class P> static void check(P const & a, P const &, P const &, V const & p, V const &, V const &, LD, std::false_type) { (void)a; (void)p; } template<class P> static void check(P const & a, P const &, P const &, V const & p, V const &, V const &, LD L, std::true_type) { eq(viennagrid::determinant(a), p[0], L, "determinant 1x1"); } };
template<> struct Det<2> { template<class P, class B> static void check(P const &, P const &, P const &, V const &, V const &, V const &, LD, B) {} static void check(C2 const & a, C2 const & b, C2 const &, V const & p, V const & q, V const &, LD L, std::true_type) { eq(viennagrid::determinant(a, b), p[0] * q[1] - p[1] * q[0], L * L, "determinant 2x2"); } };
template<> struct Det<3> { template<class P, class B> static void check(P const &, P const &, P const &, V const &, V const &, V const &, LD, B) {} static void check(C3 const & a, C3 const & b, C3 const & x, V const & p, V const & q, V const & u, LD L, std::true_type) { eq(viennagrid::determinant(a, b, x), dot(p, cross(q, u)), L * L * L, "determinant 3x3");
  eq(viennagrid::determinant(b, a, x), -dot(p, cross(q, u)), L * L * L, "determinant 3x3 with columns swapped"); } };

inline LD angle_ref(V const & a, V const & b) { return std::atan2(len(cross(a, b)), dot(a, b)); }
// spherical excess from the three dihedral angles (independent of the formula in the library)
inline LD excess(V const & a, V const & b, V const & c) { V ab = cross(a, b), bc = cross(b, c), ca = cross(c, a); LD pi = std::acos((LD)-1); V m1 = (LD)-1 * ca, m2 = (LD)-1 * ab, m3 = (LD)-1 * bc; return angle_ref(ab, m1) + angle_ref(bc, m2) + angle_ref(ca, m3) - pi; }

template<class A, class B> void pair_(Src & s, vh::Case & c) {
  const int D = Info<A>::dim; A a = gen<A>(s); B b = gen<B>(s); A x = gen<A>(s); B y = gen<B>(s); if (s.chance(10)) x = a; if (s.chance(5)) b = gen<B>(s);
  show(c.desc, a); show(c.desc, b); show(c.desc, x); show(c.desc, y); V p = cart(a), q = cart(b), u = cart(x), w = cart(y); A a0(a); B b0(b);
  LD la = len(p), lb = len(q), L = la + lb + len(u) + len(w), E = 1e-300L;
  eq(viennagrid::inner_prod(a, b), dot(p, q), la * lb + E, "inner product"); eq(viennagrid::inner_prod(b, a), dot(p, q), la * lb + E, "inner product, arguments swapped"); eq(viennagrid::inner_prod(a, a), dot(p, p), la * la + E, "inner product of a point with itself");
  eq(viennagrid::norm(a), la, la + E, "norm"); eq(viennagrid::norm_2(a), la, la + E, "2-norm"); eq(viennagrid::norm(a, viennagrid::two_norm_tag()), la, la + E, "2-norm by tag");
  LD n1 = std::fabs(p[0]) + std::fabs(p[1]) + std::fabs(p[2]); eq(viennagrid::norm_1(a), n1, la + E, "1-norm"); eq(viennagrid::norm(a, viennagrid::one_norm_tag()), n1, la + E, "1-norm by tag"); eq(viennagrid::norm_inf(a), amax(p), la + E, "maximum norm"); eq(viennagrid::norm(a, viennagrid::inf_norm_tag()), amax(p), la + E, "maximum norm by tag");
  { A r = viennagrid::cross_prod(a, b); near(cart(r), D == 3 ? cross(p, q) : V(), rtol<A>() * (la * lb + E), "cross product"); B r2 = viennagrid::cross_prod(b, a); near(cart(r2), D == 3 ? cross(q, p) : V(), rtol<B>() * (la * lb + E), "cross product, arguments swapped"); }
  eq(viennagrid::spanned_volume(a, b), vol2(p, q), L + E, "length of a line"); if (D == 1) eq(viennagrid::signed_spanned_volume(a, b), q[0] - p[0], L + E, "signed length");
  Vol<Info<A>::dim>::check(a, b, x, y, p, q, u, w, L + E); Det<Info<A>::dim>::check(a, x, a, p, u, p, L + E, std::integral_constant<bool, (bool)Info<A>::cartesian>());
  { A z = gen<A>(s); V v = cart(z); Det<Info<A>::dim>::check(a, x, z, p, u, v, L + len(v) + E, std::integral_constant<bool, (bool)Info<A>::cartesian>()); }
  // angles, where both rays are well defined
  LD lu = len(u); if (la > 1e-6L && lu > 1e-6L) { LD t = angle_ref(p, u); eq(viennagrid::angle(a, x), t, 1, "angle", 1e-7L); eq(viennagrid::angle(x, a), t, 1, "angle, arguments swapped", 1e-7L); if (t > 0.1L && t < 3.0L) { eq(viennagrid::angle(a, x), t, 1, "angle", 1e-11L); c.label("generic angle"); } }
  { A o = gen<A>(s); V z = cart(o); LD Lz = L + len(z); V d1 = p - z, d2 = u - z; if (len(d1) > 1e-3L * Lz && len(d2) > 1e-3L * Lz) eq(viennagrid::angle(a, x, o), angle_ref(d1, d2), 1, "angle at a given origin", Info<A>::cartesian ? 1e-7L : 1e-4L); }
  for (int i = 0; i < D; ++i) VH_CHECK(a[(std::size_t)i] == a0[(std::size_t)i] && b[(std::size_t)i] == b0[(std::size_t)i], "an argument was modified");
  c.hit(la > 0 && lb > 0 && D > 1 ? len(cross(p, q)) > 1e-9L * la * lb : la > 0 && lb > 0);
}
