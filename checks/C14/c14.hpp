#include "../C13/c13.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/circumcenter.hpp"
#include "viennagrid/algorithm/geometry.hpp"
typedef std::vector<Pt> Pts;
inline void near_pt(Pt const & a, Pt const & b, double tol, std::string const & what) { for (size_t i = 0; i < b.size(); ++i) VH_CHECK(std::fabs(a[i] - b[i]) <= tol, what << ": component " << i << " is " << a[i] << ", expected " << b[i]); }
inline double diam(Pts const & p) { double e = 0; for (auto const & a : p) for (auto const & b : p) e = std::max(e, norm(diff(a, b))); return e; }
// normal vectors exist for facets of full-dimensional meshes
template<class Tag, int GD> struct Normal { template<class E, class A> static void check(E const &, Pts const &, A const &, bool) {} };
template<> struct Normal<viennagrid::line_tag, 2> { template<class E, class A> static void check(E const & e, Pts const & p, A const & acc, bool alt) { Pt n = from_point(alt ? viennagrid::normal_vector(acc, e) : viennagrid::normal_vector(e)), d = diff(p[1], p[0]); double L = norm(d); VH_CHECK(std::fabs(n[0] * d[0] + n[1] * d[1]) <= 1e-12 * (L * norm(n) + 1e-300), "normal vector of an edge is not perpendicular to it"); VH_CHECK(L == 0 || -d[1] * n[0] + d[0] * n[1] > 0, "normal vector of an edge points to the other side than its vertex order says"); } };
struct Normal3 { template<class E, class A> static void check(E const & e, Pts const & p, A const & acc, bool alt) {
  Pt n = from_point(alt ? viennagrid::normal_vector(acc, e) : viennagrid::normal_vector(e)); double D = diam(p), N = norm(n); for (size_t i = 1; i < p.size(); ++i) { Pt d = diff(p[i], p[0]); VH_CHECK(std::fabs(n[0] * d[0] + n[1] * d[1] + n[2] * d[2]) <= 1e-12 * D * D * D + 1e-11 * N * D, "normal vector is not perpendicular to the element"); }
  Pt a = diff(p[1], p[0]), b = diff(p[2], p[0]); Pt x{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; double X = norm(x); if (X > 1e-6 * D * D) VH_CHECK(n[0] * x[0] + n[1] * x[1] + n[2] * x[2] > 0.99 * X * N && N > 0, "normal vector does not follow the right-hand rule of the vertex order"); } };
template<> struct Normal<viennagrid::triangle_tag, 3> : Normal3 {};
template<> struct Normal<viennagrid::quadrilateral_tag, 3> : Normal3 {};

template<class Tag, int GD> struct El { template<class E, class Acc> static bool check(E const & e, Pts const & p, Acc const & acc, bool box, bool alt) {
  typedef typename Acc::value_type P; double sc = ext(p) + 1e-300, D = diam(p);
  Pt want = mid(p); Pt got = alt ? from_point(viennagrid::centroid(acc, e)) : from_point(viennagrid::centroid(e)); if (box || p.size() <= (size_t)Topo<Tag>::tdim + 1) near_pt(got, want, 1e-13 * sc, std::string("centroid of ") + Topo<Tag>::name());
  bool simplex_ = (int)Topo<Tag>::nv == (int)Topo<Tag>::tdim + 1; bool good = false;
  if (simplex_ || box) {
    std::vector<Pt> q(p); if (!simplex_) q.resize(0); double m = simplex_ ? (double)simplex(p) : 1.0; int k = Topo<Tag>::tdim;
    if (ext(p) < 50 * D && (!simplex_ || m > 0.01 * std::pow(D, k))) {
      good = true; Pt c = alt ? from_point(viennagrid::circumcenter(acc, e)) : from_point(viennagrid::circumcenter(e)); double r0 = norm(diff(c, p[0])), tol = 1e-8 * (sc + D);
      for (size_t i = 1; i < p.size(); ++i) VH_CHECK(std::fabs(norm(diff(c, p[i])) - r0) <= tol, "circumcenter of " << Topo<Tag>::name() << ": distances to vertices 0 and " << i << " are " << r0 << " and " << norm(diff(c, p[i])));
      if (simplex_ && k < GD) { Pts w(p); if (k == 1) VH_CHECK(std::fabs(r0 - D / 2) <= tol, "circumcenter of a line is not on it"); else { w.push_back(c); VH_CHECK((double)simplex(w) <= 1e-8 * D * D * (sc + D), "circumcenter is not in the plane of the element"); } }
      if (box) near_pt(c, want, tol, "circumcenter of a box");
    }
  }
  Normal<Tag, GD>::check(e, p, acc, alt); return good; } };

template<class M, class Tag> void all(M const & mesh, RefMesh const & r, std::vector<typename Types<M>::Point> const & altp, bool box, int & good) {
  typedef typename viennagrid::result_of::const_element_range<M, Tag>::type R; R rr(mesh); typedef typename viennagrid::result_of::vertex<M>::type V;
  typename viennagrid::result_of::accessor<const std::vector<typename Types<M>::Point>, V>::type acc(altp);
  for (typename viennagrid::result_of::iterator<R>::type it = rr.begin(); it != rr.end(); ++it) { Pts p, q; for (int v : vids(*it)) { p.push_back(r.pts[(size_t)v]); q.push_back(from_point(altp[(size_t)v])); }
    good += El<Tag, Types<M>::Point::dim>::check(*it, p, acc, box, false); El<Tag, Types<M>::Point::dim>::check(*it, q, acc, box, true);
    VH_CHECK(std::fabs((LD)viennagrid::volume(acc, *it) - Meas<Tag>::of(q)) <= 1e-10 * (std::pow((LD)ext(q), (LD)Topo<Tag>::tdim) + Meas<Tag>::of(q)), "volume with explicit point accessor"); }
}
template<class M, int TD> struct Dims { static void run(M const & m, RefMesh const & r, std::vector<typename Types<M>::Point> const & a, bool box, int & g) { all<M, viennagrid::line_tag>(m, r, a, box, g); } };
template<class M> struct Dims<M, 2> { static void run(M const & m, RefMesh const & r, std::vector<typename Types<M>::Point> const & a, bool box, int & g) { all<M, typename Types<M>::CellTag>(m, r, a, box, g); all<M, viennagrid::line_tag>(m, r, a, box, g); } };
template<class M> struct Dims<M, 3> { static void run(M const & m, RefMesh const & r, std::vector<typename Types<M>::Point> const & a, bool box, int & g) { all<M, typename Types<M>::CellTag>(m, r, a, box, g); all<M, typename Types<M>::CellTag::facet_tag>(m, r, a, box, g); all<M, viennagrid::line_tag>(m, r, a, box, g); } };

template<class M> void run(Src & s, vh::Case & c) {
  typedef typename Types<M>::CellTag T; typedef typename Types<M>::Point P; const int GD = P::dim, TD = Topo<T>::tdim; typedef typename viennagrid::result_of::segmentation<M>::type SG;
  bool cube = (int)Topo<T>::nv == (1 << TD) && TD > 1; GridOpt o; o.maxn = TD == 3 ? 2 : 3; if (cube) { o.jitter = false; o.embed = false; } RefMesh r; bool single = !cube && s.chance(40);
  if (single) { r.gdim = GD; r.pts = Shape<T>::make(s, GD); Cell q; for (int i = 0; i < (int)Topo<T>::nv; ++i) q.push_back(i); s.shuffle(q); r.cells.push_back(q); } else r = grid<T>(s, GD, o);
  if (cube || s.chance(30)) { // rigid motion (keeps rectangles and cuboids), arbitrary axes
    double a = s.real(), b = s.real(), g = s.real(); auto rot = [](Pt & p, size_t i, size_t j, double w) { if (p.size() <= j) return; double x = p[i], y = p[j]; p[i] = std::cos(w) * x - std::sin(w) * y; p[j] = std::sin(w) * x + std::cos(w) * y; };
    if (s.chance(70)) for (auto & p : r.pts) { rot(p, 0, 1, a); rot(p, 1, 2, b); rot(p, 0, 2, g); } }
  double unit = s.chance(25) ? std::pow(10.0, (double)s.range_signed(6)) : 1; if (unit != 1) for (auto & p : r.pts) for (double & x : p) x *= unit;
  describe(c.desc, r); M mesh; SG sg(mesh); int ns = (int)s.range(1, 2); for (int i = 0; i < ns; ++i) sg.make_segment(); auto vh_ = add_vertices(mesh, r); std::vector<std::vector<int> > mem((size_t)ns);
  for (size_t i = 0; i < r.cells.size(); ++i) { auto h = add_cell(mesh, vh_, r.cells[i]); for (int k = 0; k < ns; ++k) if (s.chance(60)) { auto sh = sg[k]; viennagrid::add(sh, h); mem[(size_t)k].push_back((int)i); } }
  std::vector<P> alt; double f = (double)s.range(1, 8) / 4.0; Pt t; for (int d = 0; d < GD; ++d) t.push_back(s.real() * unit); for (auto const & p : r.pts) { Pt q(p); for (int d = 0; d < GD; ++d) q[(size_t)d] = f * p[(size_t)d] + t[(size_t)d]; alt.push_back(to_point<P>(q)); }
  int good = 0; Dims<M, TD>::run(mesh, r, alt, cube, good); double sc = ext(r.pts) + unit;
  for (int k = -1; k < ns; ++k) { // centroids of mesh and segments
    std::vector<int> ids; if (k < 0) for (size_t i = 0; i < r.cells.size(); ++i) ids.push_back((int)i); else ids = mem[(size_t)k]; LD tot = 0, mx = 0; std::vector<LD> w((size_t)GD, 0); 
    for (int i : ids) { Pts p; for (int v : r.cells[(size_t)i]) p.push_back(r.pts[(size_t)v]); LD m = Meas<T>::of(p); Pt z = mid(p); tot += m; mx = std::max(mx, m); for (int d = 0; d < GD; ++d) w[(size_t)d] += m * z[(size_t)d]; }
    if (tot < 1e-6 * std::pow(unit, TD)) continue; Pt want; for (LD x : w) want.push_back((double)(x / tot)); double tol = 1e-10 * sc * (1 + sc / unit / ((double)tot / std::pow(unit, TD)) * 1e-3) * (single ? 1e3 : 1);
    Pt got = from_point(k < 0 ? viennagrid::centroid(mesh) : viennagrid::centroid(sg[k])); near_pt(got, want, tol, k < 0 ? "centroid of the mesh" : "centroid of a segment");
    { typedef typename viennagrid::result_of::vertex<M>::type V; std::vector<P> const & ca = alt; typename viennagrid::result_of::accessor<const std::vector<P>, V>::type acc(ca); Pt w2; for (int d = 0; d < GD; ++d) w2.push_back(f * want[(size_t)d] + t[(size_t)d]); double tol2 = 10 * (f + 1) * tol + 1e-10 * norm(t);
      near_pt(from_point(k < 0 ? viennagrid::centroid(mesh, acc) : viennagrid::centroid(sg[k], acc)), w2, tol2, k < 0 ? "centroid of the mesh with explicit point accessor" : "centroid of a segment with explicit point accessor"); }
  }
  { Pt lo(r.pts[0]), hi(r.pts[0]); for (auto const & p : r.pts) for (int d = 0; d < GD; ++d) { lo[(size_t)d] = std::min(lo[(size_t)d], p[(size_t)d]); hi[(size_t)d] = std::max(hi[(size_t)d], p[(size_t)d]); }
    std::pair<P, P> bb = viennagrid::bounding_box(mesh); near_pt(from_point(bb.first), lo, 0, "lower corner of the bounding box"); near_pt(from_point(bb.second), hi, 0, "upper corner of the bounding box");
    std::pair<P, P> b2 = viennagrid::bounding_box(alt.begin(), alt.end()); Pt l2 = from_point(alt[0]), h2 = l2; for (auto const & p : alt) for (int d = 0; d < GD; ++d) { l2[(size_t)d] = std::min(l2[(size_t)d], p[(size_t)d]); h2[(size_t)d] = std::max(h2[(size_t)d], p[(size_t)d]); } near_pt(from_point(b2.first), l2, 0, "lower corner of the bounding box of points"); near_pt(from_point(b2.second), h2, 0, "upper corner of the bounding box of points");
    double ms = viennagrid::mesh_size(mesh); VH_CHECK(std::fabs(ms - norm(diff(hi, lo))) <= 1e-12 * ms, "mesh_size is " << ms << ", expected " << norm(diff(hi, lo))); }
  c.hit(good > 0);
}
