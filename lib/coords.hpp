// Points in all coordinate systems, with a long double Cartesian reference (used by C15, C16).
#ifndef COORDS_HPP
#define COORDS_HPP
#include "vh.hpp"
#include "viennagrid/forwards.hpp"
#include "viennagrid/point.hpp"
namespace co {
typedef long double LD; using vh::Src;
typedef viennagrid::spatial_point<double, viennagrid::cartesian_cs<1> > C1;
typedef viennagrid::spatial_point<double, viennagrid::cartesian_cs<2> > C2;
typedef viennagrid::spatial_point<double, viennagrid::cartesian_cs<3> > C3;
typedef viennagrid::spatial_point<double, viennagrid::polar_cs> Po;
typedef viennagrid::spatial_point<double, viennagrid::spherical_cs> Sp;
typedef viennagrid::spatial_point<double, viennagrid::cylindrical_cs> Cy;
struct V { LD x[3]; V() { x[0] = x[1] = x[2] = 0; } V(LD a, LD b, LD c) { x[0] = a; x[1] = b; x[2] = c; } LD & operator[](int i) { return x[i]; } LD operator[](int i) const { return x[i]; } };
inline V operator+(V const & a, V const & b) { return V(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline V operator-(V const & a, V const & b) { return V(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline V operator*(LD f, V const & a) { return V(f * a[0], f * a[1], f * a[2]); }
inline LD dot(V const & a, V const & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V cross(V const & a, V const & b) { return V(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
inline LD len(V const & a) { return std::sqrt(dot(a, a)); }
inline V cart(C1 const & p) { return V(p[0], 0, 0); }
inline V cart(C2 const & p) { return V(p[0], p[1], 0); }
inline V cart(C3 const & p) { return V(p[0], p[1], p[2]); }
inline V cart(Po const & p) { LD r = p[0], a = p[1]; return V(r * std::cos(a), r * std::sin(a), 0); }
inline V cart(Sp const & p) { LD r = p[0], t = p[1], f = p[2]; return V(r * std::sin(t) * std::cos(f), r * std::sin(t) * std::sin(f), r * std::cos(t)); }
inline V cart(Cy const & p) { LD r = p[0], f = p[1]; return V(r * std::cos(f), r * std::sin(f), p[2]); }
template<class P> struct Info; 
#define CO_INFO(T, n, d, c) template<> struct Info<T> { enum { dim = d, cartesian = c }; static char const * name() { return n; } };
CO_INFO(C1, "cartesian1", 1, 1) CO_INFO(C2, "cartesian2", 2, 1) CO_INFO(C3, "cartesian3", 3, 1) CO_INFO(Po, "polar", 2, 0) CO_INFO(Sp, "spherical", 3, 0) CO_INFO(Cy, "cylindrical", 3, 0)
#undef CO_INFO
// lengths of many magnitudes; angles in and outside the principal range; radii of either sign where the caller allows it
inline double mag(Src & s) { double v = s.real(); switch (s.draw(6)) { case 4: return v * 1e-4; case 5: return v * 1e5; default: return v; } }
inline double ang(Src & s) { static const double pi = 3.14159265358979323846; switch (s.draw(4)) { case 0: return pi / 4 * (double)s.range_signed(8); case 1: return pi / 2 * (double)s.range_signed(4); default: return (double)s.range_signed(6300000) / 1e6; } }
template<class P> P gen(Src & s, bool negr = true) { P p; for (int i = 0; i < (int)Info<P>::dim; ++i) p[(std::size_t)i] = mag(s); (void)negr; return p; }
template<> inline Po gen<Po>(Src & s, bool negr) { double r = mag(s); return Po(negr && s.chance(20) ? r : std::fabs(r), ang(s)); }
template<> inline Sp gen<Sp>(Src & s, bool negr) { double r = mag(s), t = ang(s); static const double pi = 3.14159265358979323846; if (!negr || s.chance(70)) { t = std::fabs(t); while (t > pi) t -= pi; r = std::fabs(r); } return Sp(r, t, ang(s)); }
template<> inline Cy gen<Cy>(Src & s, bool negr) { double r = mag(s); double a = ang(s); return Cy(negr && s.chance(20) ? r : std::fabs(r), a, mag(s)); }
template<class OS, class P> void show(OS & os, P const & p) { os << Info<P>::name() << "("; for (int i = 0; i < (int)Info<P>::dim; ++i) os << (i ? "," : "") << p[(std::size_t)i]; os << ") "; }
inline void near(V const & got, V const & want, LD tol, std::string const & what) { for (int i = 0; i < 3; ++i) VH_CHECK(std::fabs(got[i] - want[i]) <= tol, what << ": Cartesian component " << i << " is " << (double)got[i] << ", expected " << (double)want[i] << " (tolerance " << (double)tol << ")"); }
}
#endif
