#include "meshgen.hpp"
#include "viennagrid/algorithm/inclusion.hpp"
using namespace mg; typedef long double LD;
// barycentric coordinates of q in the simplex (least squares in the element's own plane)
inline bool solve(std::vector<std::vector<LD> > a, std::vector<LD> b, std::vector<LD> & x) { size_t n = b.size(); for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k; i < n; ++i) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i; if (a[p][k] == 0) return false; std::swap(a[p], a[k]); std::swap(b[p], b[k]); for (size_t i = k + 1; i < n; ++i) { LD f = a[i][k] / a[k][k]; for (size_t j = k; j < n; ++j) a[i][j] -= f * a[k][j]; b[i] -= f * b[k]; } } x.assign(n, 0); for (size_t k = n; k-- > 0;) { LD t = b[k]; for (size_t j = k + 1; j < n; ++j) t -= a[k][j] * x[j]; x[k] = t / a[k][k]; } return true; }
inline bool bary(std::vector<Pt> const & v, Pt const & q, std::vector<LD> & l) { size_t n = v.size() - 1, g = q.size(); std::vector<std::vector<LD> > a(n, std::vector<LD>(n, 0)); std::vector<LD> b(n, 0); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) for (size_t d = 0; d < g; ++d) a[i][j] += ((LD)v[i + 1][d] - v[0][d]) * ((LD)v[j + 1][d] - v[0][d]); for (size_t d = 0; d < g; ++d) b[i] += ((LD)v[i + 1][d] - v[0][d]) * ((LD)q[d] - v[0][d]); }
  std::vector<LD> x; if (!solve(a, b, x)) return false; LD r = 1; for (LD t : x) r -= t; l.assign(1, r); l.insert(l.end(), x.begin(), x.end()); return true; }
inline LD quality(std::vector<Pt> const & v) { LD D = 0; for (auto const & a : v) for (auto const & b : v) D = std::max<LD>(D, norm(diff(a, b))); if (D == 0) return 0; size_t n = v.size() - 1, g = v[0].size(); std::vector<std::vector<LD> > a(n, std::vector<LD>(n, 0)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t d = 0; d < g; ++d) a[i][j] += ((LD)v[i + 1][d] - v[0][d]) * ((LD)v[j + 1][d] - v[0][d]) / D / D; LD det = n == 2 ? a[0][0] * a[1][1] - a[0][1] * a[1][0] : a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); return det; }

template<class M> void run(Src & s, vh::Case & c) {
  typedef typename Types<M>::CellTag T; typedef typename Types<M>::Point P; const int GD = P::dim, NV = Topo<T>::nv; typedef typename viennagrid::result_of::vertex<M>::type V;
  RefMesh r; r.gdim = GD; bool lattice = s.chance(50), off = !lattice && s.chance(30); double sc = lattice ? 1 : std::pow(10.0, (double)s.range_signed(4)); Pt t; for (int d = 0; d < GD; ++d) t.push_back(off ? s.real(8 * sc) : 0);
  int nv = NV + (int)s.range(0, 2); for (int i = 0; i < nv; ++i) { Pt p; for (int d = 0; d < GD; ++d) p.push_back(lattice ? (double)s.range_signed(4) : s.real(sc) + t[(size_t)d]); r.pts.push_back(p); }
  Cell q; for (int i = 0; i < nv; ++i) q.push_back(i); s.shuffle(q); q.resize((size_t)NV); r.cells.push_back(q); std::vector<Pt> v; for (int i : q) v.push_back(r.pts[(size_t)i]); describe(c.desc, r);
  if (quality(v) < 1e-3L) return; LD ext = 0, D = 0; for (auto const & a : v) { ext = std::max<LD>(ext, norm(a)); for (auto const & b : v) D = std::max<LD>(D, norm(diff(a, b))); } if (ext > 1e3L * D) return;
  M mesh; build(mesh, r); std::vector<P> altp; double f = (double)s.range(1, 8) / 2; Pt sh; for (int d = 0; d < GD; ++d) sh.push_back((double)s.range_signed(4)); for (auto const & p : r.pts) { Pt w(p); for (int d = 0; d < GD; ++d) w[(size_t)d] = -f * p[(size_t)d] + sh[(size_t)d]; altp.push_back(to_point<P>(w)); }
  typename viennagrid::result_of::accessor<const std::vector<P>, V>::type acc(altp); auto & el = viennagrid::cells(mesh)[0]; bool in = false, out = false, edge = false;
  for (int k = 0; k < 12; ++k) {
    double eps = s.chance(50) ? 0 : std::pow(10.0, -(double)s.range(1, 12)); Pt w((size_t)GD, 0.0); int mode = (int)s.draw(3); bool band = eps > 0 && s.chance(30); if (mode == 0 && (GD > NV - 1 || band)) mode = 1;
    if (mode == 0) { for (int d = 0; d < GD; ++d) w[(size_t)d] = lattice ? (double)s.range_signed(5) : s.real(sc) + t[(size_t)d]; }
    else { double tot = 0; std::vector<double> wt; for (int i = 0; i < NV; ++i) wt.push_back(mode == 1 ? (double)s.range(-1, 4) : s.chance(30) ? 0.0 : (double)s.range(0, 1000) / 1000.0 - (s.chance(20) ? 0.2 : 0)); if (band) { for (double & x : wt) x = 0.1 + std::fabs(x); for (double x : wt) tot += x; size_t z = (size_t)s.draw((uint64_t)NV); double k = -(double)s.range(0, 40) / 10.0 * eps; double f2 = (1 - k) / (tot - wt[z]); for (double & x : wt) x *= f2; wt[z] = k; tot = 0; } for (double x : wt) tot += x; if (std::fabs(tot) < 1e-3) continue; for (int i = 0; i < NV; ++i) for (int d = 0; d < GD; ++d) w[(size_t)d] += wt[(size_t)i] * v[(size_t)i][(size_t)d] / tot; }
    std::vector<LD> l; if (!bary(v, w, l)) continue; LD mn = l[0], big = 0; for (LD x : l) { mn = std::min(mn, x); big = std::max(big, std::fabs(x)); } LD mg_ = 1e-9L * (1 + big * big); P p = to_point<P>(w); bool exact = lattice && mode == 0;
    bool got = eps == 0 ? viennagrid::is_inside(el, p) : viennagrid::is_inside(el, p, eps); LD neg = 0; for (LD x : l) neg += x < 0 ? -x : 0; bool must_in = mn > mg_ || (exact && mn > -1e-15L) || (eps > 0 && neg < 0.9L * eps - mg_), must_out = mn < -2.1L * eps - mg_;
    if (must_in) VH_CHECK(got, "point " << p << " reported outside, smallest barycentric coordinate " << (double)mn << " tolerance " << eps); if (must_out) VH_CHECK(!got, "point " << p << " reported inside, smallest barycentric coordinate " << (double)mn << " tolerance " << eps); in |= must_in; out |= must_out; edge |= exact && std::fabs(mn) < 1e-15L;
    { Pt wa(w); for (int d = 0; d < GD; ++d) wa[(size_t)d] = -f * w[(size_t)d] + sh[(size_t)d]; double e2 = eps == 0 ? 1e-12 : eps; if (mn > 10 * mg_) VH_CHECK(viennagrid::is_inside(acc, el, to_point<P>(wa), e2), "explicit accessor: point reported outside"); if (mn < -2.1L * e2 - 10 * mg_) VH_CHECK(!viennagrid::is_inside(acc, el, to_point<P>(wa), e2), "explicit accessor: point reported inside"); }
  }
  c.hit(in && out); if (edge) c.label("exactly on the boundary");
}
