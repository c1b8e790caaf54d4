#include "meshgen.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/surface.hpp"
#include "viennagrid/mesh/segmentation.hpp"
using namespace mg;
typedef long double LD;
// measure of the simplex spanned by the points (Gram determinant)
inline LD simplex(std::vector<Pt> const & p) {
  size_t k = p.size() - 1; if (k == 0) return 1; std::vector<std::vector<LD> > v(k); for (size_t i = 0; i < k; ++i) for (size_t d = 0; d < p[0].size(); ++d) v[i].push_back((LD)p[i + 1][d] - (LD)p[0][d]);
  if (k == 1) { LD r = 0; for (LD x : v[0]) r += x * x; return std::sqrt(r); }
  if (k == 2) { if (p[0].size() == 2) return std::fabs(v[0][0] * v[1][1] - v[0][1] * v[1][0]) / 2; LD x = v[0][1] * v[1][2] - v[0][2] * v[1][1], y = v[0][2] * v[1][0] - v[0][0] * v[1][2], z = v[0][0] * v[1][1] - v[0][1] * v[1][0]; return std::sqrt(x * x + y * y + z * z) / 2; }
  LD x = v[0][1] * v[1][2] - v[0][2] * v[1][1], y = v[0][2] * v[1][0] - v[0][0] * v[1][2], z = v[0][0] * v[1][1] - v[0][1] * v[1][0]; return std::fabs(x * v[2][0] + y * v[2][1] + z * v[2][2]) / 6;
}
inline Pt mid(std::vector<Pt> const & p) { Pt r(p[0].size(), 0.0); for (auto const & q : p) for (size_t i = 0; i < r.size(); ++i) r[i] += q[i] / (double)p.size(); return r; }
// convex planar polygon given as a cyclic point list: fan around its mean
inline LD convex_polygon(std::vector<Pt> const & p) { Pt c = mid(p); LD r = 0; for (size_t i = 0; i < p.size(); ++i) r += simplex({c, p[i], p[(i + 1) % p.size()]}); return r; }
// planar-faced convex hexahedron (binary numbering): pyramids over its six faces from the mean point
inline LD hexa(std::vector<Pt> const & p) { static const int F[6][4] = {{0,1,3,2},{4,5,7,6},{0,1,5,4},{2,3,7,6},{0,2,6,4},{1,3,7,5}}; Pt c = mid(p); LD r = 0; for (auto & f : F) { r += simplex({c, p[(size_t)f[0]], p[(size_t)f[1]], p[(size_t)f[2]]}); r += simplex({c, p[(size_t)f[0]], p[(size_t)f[2]], p[(size_t)f[3]]}); } return r; }
template<class Tag> struct Meas { static LD of(std::vector<Pt> const & p) { return simplex(p); } };
template<> struct Meas<viennagrid::quadrilateral_tag> { static LD of(std::vector<Pt> const & p) { return convex_polygon({p[0], p[1], p[3], p[2]}); } };
template<> struct Meas<viennagrid::hexahedron_tag> { static LD of(std::vector<Pt> const & p) { return hexa(p); } };

// random points of one valid cell
template<class Tag> struct Shape { static std::vector<Pt> make(Src & s, int gd) { std::vector<Pt> p; for (int i = 0; i < (int)Topo<Tag>::nv; ++i) { Pt q; for (int d = 0; d < gd; ++d) q.push_back(s.real()); p.push_back(q); } return p; } };
inline std::vector<Pt> affine(Src & s, std::vector<Pt> const & p, int gd) { // random linear map (not necessarily well conditioned) plus translation
  double a[3][3], t[3]; for (auto & r : a) for (double & x : r) x = s.real(0.5); for (double & x : t) x = s.real(); if (s.chance(30)) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] = i == j;
  std::vector<Pt> r; for (auto const & q : p) { Pt o; for (int i = 0; i < gd; ++i) { double v = t[i]; for (size_t j = 0; j < q.size(); ++j) v += a[i][j] * q[j]; o.push_back(v); } r.push_back(o); } return r;
}
template<> struct Shape<viennagrid::quadrilateral_tag> { static std::vector<Pt> make(Src & s, int gd) { double a = (double)s.range(1, 30) / 10.0, b = (double)s.range(1, 30) / 10.0; if (a + b <= 1.05) a = b = 1; return affine(s, {{0, 0}, {1, 0}, {0, 1}, {a, b}}, gd); } };
template<> struct Shape<viennagrid::hexahedron_tag> { static std::vector<Pt> make(Src & s, int gd) { // frustum over a convex quadrilateral
  double a = (double)s.range(1, 30) / 10.0, b = (double)s.range(1, 30) / 10.0; if (a + b <= 1.05) a = b = 1; double k = (double)s.range(1, 20) / 10.0, ox = s.real(0.2), oy = s.real(0.2), h = (double)s.range(1, 20) / 8.0; double bx[4] = {0, 1, 0, a}, by[4] = {0, 0, 1, b}; std::vector<Pt> p;
  for (int z = 0; z < 2; ++z) for (int i = 0; i < 4; ++i) p.push_back(z ? Pt{ox + k * bx[i], oy + k * by[i], h} : Pt{bx[i], by[i], 0}); return affine(s, p, gd); } };

template<class P> P topt(Pt const & q) { return to_point<P>(q); }
inline double ext(std::vector<Pt> const & p) { double r = 0; for (auto const & a : p) for (double x : a) r = std::max(r, std::fabs(x)); return r; }
inline double tolerance(std::vector<Pt> const & p, int k) { double e = 0, m = ext(p); for (auto const & a : p) for (auto const & b : p) e = std::max(e, norm(diff(a, b))); return 1e-13 * std::pow(m + 1e-300, 1) * std::pow(std::max(e, m), k - 1) * 50 + 1e-300; }

template<class M> void cell(Src & s, vh::Case & c) {
  typedef typename Types<M>::CellTag T; typedef typename Types<M>::Point P; const int GD = P::dim, TD = Topo<T>::tdim;
  std::vector<Pt> p = Shape<T>::make(s, GD); double unit = s.chance(25) ? std::pow(10.0, (double)s.range_signed(9)) : 1; if (unit != 1) for (auto & q : p) for (double & x : q) x *= unit; std::vector<int> perm; for (int i = 0; i < (int)Topo<T>::nv; ++i) perm.push_back(i); permute_cell<T>(s, perm);
  RefMesh r; r.gdim = GD; r.pts = p; r.cells.push_back(perm); describe(c.desc, r); M mesh; build(mesh, r);
  LD want = Meas<T>::of(p); typename viennagrid::result_of::cell<M>::type const & e = viennagrid::cells(mesh)[0]; double tol = tolerance(p, TD);
  double got = viennagrid::volume(e); VH_CHECK(std::fabs((LD)got - want) <= tol + 1e-12 * std::fabs(want), "volume of " << Topo<T>::name() << " is " << got << ", expected " << (double)want);
  VH_CHECK(std::fabs(viennagrid::volume(mesh) - got) <= tol, "volume of a mesh of one cell is " << viennagrid::volume(mesh) << " instead of " << got);
  VH_CHECK(std::fabs(viennagrid::volume(viennagrid::default_point_accessor(mesh), e) - got) <= tol, "volume with point accessor");
  LD sw = 0; for (auto const & b : boundary<T>(perm, TD - 1)) { std::vector<Pt> q; for (int v : b) q.push_back(p[(size_t)v]); sw += TD == 3 && q.size() == 4 ? Meas<viennagrid::quadrilateral_tag>::of(q) : simplex(q); }
  double sv = viennagrid::surface(e); VH_CHECK(std::fabs((LD)sv - sw) <= 10 * tolerance(p, std::max(TD - 1, 1)) + 1e-12 * sw, "surface of " << Topo<T>::name() << " is " << sv << ", expected " << (double)sw);
  { double f = (double)s.range(1, 12) / 4.0; std::vector<P> alt; for (auto const & x : p) { Pt y(x); for (double & z : y) z *= f; alt.push_back(to_point<P>(y)); } std::vector<P> const & ca = alt; typename viennagrid::result_of::accessor<const std::vector<P>, typename viennagrid::result_of::vertex<M>::type>::type acc(ca);
    double v1 = viennagrid::volume(acc, e), s1 = viennagrid::surface(acc, e), fv = std::pow(f, TD), fs = std::pow(f, TD - 1); VH_CHECK(std::fabs(v1 - fv * (double)want) <= fv * (tol + 1e-12 * std::fabs((double)want)), "volume with the points of an accessor is " << v1 << ", expected " << fv * (double)want); VH_CHECK(std::fabs(s1 - fs * (double)sw) <= fs * (10 * tolerance(p, std::max(TD - 1, 1)) + 1e-12 * (double)sw), "surface with the points of an accessor is " << s1 << ", expected " << fs * (double)sw); }
  VH_CHECK(std::fabs(viennagrid::surface(mesh) - sv) <= 1e-12 * sv, "surface of a mesh of one cell is " << viennagrid::surface(mesh) << " instead of " << sv);
  { double f = (double)s.range(1, 12) / 4.0; Pt t; for (int d = 0; d < GD; ++d) t.push_back(s.real() * unit); RefMesh q(r); for (auto & x : q.pts) for (int d = 0; d < GD; ++d) x[(size_t)d] = f * x[(size_t)d] + t[(size_t)d]; M m2; build(m2, q); double v2 = viennagrid::volume(m2); VH_CHECK(std::fabs(v2 - std::pow(f, TD) * got) <= tolerance(q.pts, TD) + tol * std::pow(f, TD) + 1e-12 * v2, "scaling by " << f << " and translation changes the volume from " << got << " to " << v2); }
  c.hit(want > 1e-6 * std::pow(unit, TD));
}
template<class M> void mesh_(Src & s, vh::Case & c) {
  typedef typename Types<M>::CellTag T; typedef typename Types<M>::Point P; const int GD = P::dim, TD = Topo<T>::tdim; typedef typename viennagrid::result_of::segmentation<M>::type SG; typedef typename T::facet_tag F;
  GridOpt o; o.maxn = TD == 3 ? 2 : 4; if (Topo<T>::nv == (1 << TD) && TD > 1) o.jitter = false; RefMesh r = grid<T>(s, GD, o); describe(c.desc, r);
  M mesh; SG sg(mesh); int ns = (int)s.range(1, 3); for (int i = 0; i < ns; ++i) sg.make_segment(); auto vh_ = add_vertices(mesh, r); std::vector<std::vector<int> > mem((size_t)ns);
  auto check = [&]() {
    for (int k = -1; k < ns; ++k) {
      std::vector<Cell> cs; if (k < 0) cs = r.cells; else for (int i : mem[(size_t)k]) cs.push_back(r.cells[(size_t)i]);
      if (k < 0) cs.resize(viennagrid::cells(mesh).size());
      LD v = 0, su = 0, len = 0; std::map<Cell, int> cnt; std::map<Cell, LD> fm; std::set<Cell> ed;
      for (auto const & q : cs) { std::vector<Pt> p; for (int x : q) p.push_back(r.pts[(size_t)x]); v += Meas<T>::of(p); for (auto const & b : boundary<T>(q, TD - 1)) { std::vector<Pt> fp; for (int x : b) fp.push_back(r.pts[(size_t)x]); ++cnt[sorted(b)]; fm[sorted(b)] = TD == 3 && fp.size() == 4 ? Meas<viennagrid::quadrilateral_tag>::of(fp) : simplex(fp); } for (auto const & b : boundary<T>(q, 1)) ed.insert(sorted(b)); }
      for (auto const & f : cnt) if (f.second % 2) su += fm[f.first]; for (auto const & e : ed) len += simplex({r.pts[(size_t)e[0]], r.pts[(size_t)e[1]]});
      double gv = k < 0 ? viennagrid::volume(mesh) : viennagrid::volume(sg[k]), gs = k < 0 ? viennagrid::surface(mesh) : viennagrid::surface(sg[k]);
      VH_CHECK(std::fabs((LD)gv - v) <= 1e-10 * (1 + v), "volume of " << (k < 0 ? "mesh" : "segment") << " is " << gv << ", expected " << (double)v);
      VH_CHECK(std::fabs((LD)gs - su) <= 1e-10 * (1 + su), "surface of " << (k < 0 ? "mesh" : "segment") << " is " << gs << ", expected " << (double)su);
(void)len;
    }
  };
  bool some = false; for (size_t i = 0; i < r.cells.size(); ++i) { auto h = add_cell(mesh, vh_, r.cells[i]); for (int k = 0; k < ns; ++k) if (s.chance(50)) { auto sh = sg[k]; viennagrid::add(sh, h); mem[(size_t)k].push_back((int)i); some = true; } if (s.chance(15)) check(); }
  check(); c.hit(some && r.cells.size() > 1);
}
