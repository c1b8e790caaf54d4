#include "meshgen.hpp"
#include <iostream>
#include "viennagrid/algorithm/distance.hpp"
#include "viennagrid/algorithm/closest_points.hpp"
using namespace mg; typedef long double LD;
struct W { LD x[3]; W() { x[0] = x[1] = x[2] = 0; } explicit W(Pt const & p) { for (size_t i = 0; i < 3; ++i) x[i] = i < p.size() ? p[i] : 0; } };
inline W operator-(W a, W const & b) { for (int i = 0; i < 3; ++i) a.x[i] -= b.x[i]; return a; }
inline W operator+(W a, W const & b) { for (int i = 0; i < 3; ++i) a.x[i] += b.x[i]; return a; }
inline W operator*(LD f, W a) { for (int i = 0; i < 3; ++i) a.x[i] *= f; return a; }
inline LD dot(W const & a, W const & b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
inline LD len(W const & a) { return std::sqrt(dot(a, a)); }
inline W cross(W const & a, W const & b) { W r; r.x[0] = a.x[1] * b.x[2] - a.x[2] * b.x[1]; r.x[1] = a.x[2] * b.x[0] - a.x[0] * b.x[2]; r.x[2] = a.x[0] * b.x[1] - a.x[1] * b.x[0]; return r; }
typedef std::vector<W> Ws;
// ---- reference distances (long double) ----
inline LD d_ps(W const & p, W const & a, W const & b) { W u = b - a; LD l = dot(u, u), t = l > 0 ? dot(p - a, u) / l : 0; t = std::max<LD>(0, std::min<LD>(1, t)); return len(p - (a + t * u)); }
inline LD d_pt(W const & p, W const & a, W const & b, W const & c) { LD best = std::min(d_ps(p, a, b), std::min(d_ps(p, a, c), d_ps(p, b, c))); W n = cross(b - a, c - a); LD nn = dot(n, n); if (nn <= 0) return best;
  W q = p - (dot(p - a, n) / nn) * n; LD s0 = dot(cross(b - a, q - a), n), s1 = dot(cross(c - b, q - b), n), s2 = dot(cross(a - c, q - c), n); if (s0 >= 0 && s1 >= 0 && s2 >= 0) best = std::min(best, len(p - q)); return best; }
inline bool in_tet(W const & p, W const & a, W const & b, W const & c, W const & d) { LD v = dot(b - a, cross(c - a, d - a)); if (v == 0) return false; LD l[4] = {dot(b - p, cross(c - p, d - p)) / v, dot(p - a, cross(c - a, d - a)) / v, dot(b - a, cross(p - a, d - a)) / v, dot(b - a, cross(c - a, p - a)) / v}; for (LD x : l) if (x < 0) return false; return true; }
inline LD d_ph(W const & p, Ws const & v) { // distance of a point and the convex hull of the vertices
  size_t n = v.size(); if (n == 1) return len(p - v[0]); if (n == 2) return d_ps(p, v[0], v[1]);
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) for (size_t k = 0; k < j; ++k) for (size_t l = 0; l < k; ++l) if (in_tet(p, v[i], v[j], v[k], v[l])) return 0;
  LD best = 1e300L; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) for (size_t k = 0; k < j; ++k) best = std::min(best, d_pt(p, v[i], v[j], v[k])); return best; }
inline LD d_ss(W const & a, W const & b, W const & c, W const & d) {
  LD best = std::min(std::min(d_ps(a, c, d), d_ps(b, c, d)), std::min(d_ps(c, a, b), d_ps(d, a, b))); W u = b - a, v = d - c, r = a - c; LD A = dot(u, u), B = dot(u, v), C = dot(v, v), D = A * C - B * B; if (D <= 1e-16L * A * C) return best;
  LD s = (B * dot(v, r) - C * dot(u, r)) / D, t = (A * dot(v, r) - B * dot(u, r)) / D; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) best = std::min(best, len((a + s * u) - (c + t * v))); return best; }
// lines the library treats as parallel although they are not (angle below 1e-3 rad) are outside the property
inline bool near_parallel(W const & a, W const & b, W const & c, W const & d) { W u = b - a, v = d - c; LD k = dot(cross(u, v), cross(u, v)), m = dot(u, u) * dot(v, v); return k > 1e-20L * m && k < 2e-6L * m; }
// an object: union of simplices/polytopes given by vertex lists
typedef std::vector<Ws> Obj;
inline LD d_po(W const & p, Obj const & o) { LD b = 1e300L; for (auto const & v : o) b = std::min(b, d_ph(p, v)); return b; }
inline bool d_oo(Obj const & a, Obj const & b, LD & best) { best = 1e300L; for (auto const & v : a) for (auto const & w : b) { if (v.size() == 1) best = std::min(best, d_ph(v[0], w)); else if (w.size() == 1) best = std::min(best, d_ph(w[0], v)); else { if (v.size() != 2 || w.size() != 2 || near_parallel(v[0], v[1], w[0], w[1])) return false; best = std::min(best, d_ss(v[0], v[1], w[0], w[1])); } } return best < 1e299L; }
inline void near_(LD got, LD want, LD sc, std::string const & what) { VH_CHECK(std::fabs(got - want) <= 1e-9L * sc, what << " is " << (double)got << ", expected " << (double)want); }
// result pair: one point on each object, that far apart
template<class PP> void pair_ok(PP const & pr, Obj const & a, Obj const & b, LD want, LD sc, std::string const & what) {
  W x(from_point(pr.first)), y(from_point(pr.second)); near_(len(x - y), want, sc, what + ": distance of the closest points"); LD d1 = std::max(d_po(x, a), d_po(y, b)), d2 = std::max(d_po(x, b), d_po(y, a)); VH_CHECK(std::min(d1, d2) <= 1e-9L * sc, what << ": a closest point is not on its object (off by " << (double)std::min(d1, d2) << ")"); }

template<class M> struct Env { typedef typename Types<M>::Point P; typedef typename Types<M>::CellTag T; RefMesh r; Ws pt, alt; std::vector<P> altp; std::vector<Cell> edges, facets; LD sc;
  Obj ob(Cell const & c, bool a) const { Ws v; for (int i : c) v.push_back(a ? alt[(size_t)i] : pt[(size_t)i]); return Obj(1, v); }
  Obj bd(Cell const & c, int tdim, bool a) const; };
template<class M> Obj Env<M>::bd(Cell const & c, int tdim, bool a) const { Obj o; if (tdim == 1) { for (int i : c) o.push_back(ob(Cell(1, i), a)[0]); return o; } for (auto const & f : boundary<T>(c, tdim - 1)) o.push_back(ob(f, a)[0]); return o; }

template<class PT> std::string ps(PT const & p) { std::ostringstream o; o << p; return o.str(); }
template<class Tag> bool shapely(Ws const & v) { // the documented numerics need cells that are not degenerate
  if (v.size() == 2) return len(v[1] - v[0]) > 0; LD D = 0; for (auto const & a : v) for (auto const & b : v) D = std::max(D, len(a - b));
  int td = Topo<Tag>::tdim; bool cube = (int)Topo<Tag>::nv == (1 << td) && td > 1; if (td == 2) { if (cube) return len(cross(v[1] - v[0], v[2] - v[0])) > 1e-2L * D * D && len(cross(v[1] - v[3], v[2] - v[3])) > 1e-2L * D * D; return len(cross(v[1] - v[0], v[2] - v[0])) > 1e-2L * D * D; }
  return std::fabs(dot(v[1] - v[0], cross(v[2] - v[0], v[cube ? 4 : 3] - v[0]))) > 1e-2L * D * D * D; }

// cell against cell / edge / mesh / segment exists for two-dimensional cells only
template<int TD> struct Pairs { template<class M, class SG, class A> static int run(Src &, Env<M> const &, M const &, SG const &, A const &, std::vector<Obj> const &, std::vector<Obj> const &, Obj const &, Obj const &) { return 0; } };
template<> struct Pairs<2> { template<class M, class SG, class A> static int run(Src & s, Env<M> const & e, M const & mesh, SG const & sg, A const & acc, std::vector<Obj> const & sb, std::vector<Obj> const & sba, Obj const & mb, Obj const & mba) {
  int n = 0; auto cs = viennagrid::cells(mesh); auto es = viennagrid::elements<viennagrid::line_tag>(mesh); LD w;
  for (int k = 0; k < 3; ++k) { size_t i = (size_t)s.draw(e.r.cells.size()), j = (size_t)s.draw(e.r.cells.size()), l = (size_t)s.draw(es.size()), q = (size_t)s.draw(sb.size()), q2 = (size_t)s.draw(sb.size()); auto & ci = cs[i]; auto & cj = cs[j]; Cell el = vids(es[l]);
    for (int a = 0; a < 2; ++a) { Obj bi = e.bd(e.r.cells[i], 2, a), bj = e.bd(e.r.cells[j], 2, a), be = e.bd(el, 1, a); 
      if (d_oo(bi, bj, w)) { near_(a ? viennagrid::boundary_distance(acc, ci, cj) : viennagrid::boundary_distance(ci, cj), w, e.sc, "boundary distance of two cells"); pair_ok(a ? viennagrid::closest_points_on_boundary(acc, ci, cj) : viennagrid::closest_points_on_boundary(ci, cj), bi, bj, w, e.sc, "closest points on the boundary of two cells"); n += w > 0; }
      if (d_oo(bi, be, w)) { near_(a ? viennagrid::boundary_distance(acc, ci, es[l]) : viennagrid::boundary_distance(ci, es[l]), w, e.sc, "boundary distance of cell and line"); near_(a ? viennagrid::boundary_distance(acc, es[l], ci) : viennagrid::boundary_distance(es[l], ci), w, e.sc, "boundary distance of line and cell"); }
      if (d_oo(bi, a ? mba : mb, w)) { near_(a ? viennagrid::boundary_distance(acc, ci, mesh) : viennagrid::boundary_distance(ci, mesh), w, e.sc, "boundary distance of cell and mesh"); near_(a ? viennagrid::boundary_distance(acc, mesh, ci) : viennagrid::boundary_distance(mesh, ci), w, e.sc, "boundary distance of mesh and cell"); pair_ok(a ? viennagrid::closest_points_on_boundary(acc, mesh, ci) : viennagrid::closest_points_on_boundary(mesh, ci), bi, a ? mba : mb, w, e.sc, "closest points on the boundary of mesh and cell"); n += w > 0; }
      Obj const & s1 = a ? sba[q] : sb[q]; Obj const & s2 = a ? sba[q2] : sb[q2]; auto g1 = sg[(int)q]; auto g2 = sg[(int)q2];
      if (!s1.empty() && d_oo(bi, s1, w)) { near_(a ? viennagrid::boundary_distance(acc, ci, g1) : viennagrid::boundary_distance(ci, g1), w, e.sc, "boundary distance of cell and segment"); near_(a ? viennagrid::boundary_distance(acc, g1, ci) : viennagrid::boundary_distance(g1, ci), w, e.sc, "boundary distance of segment and cell"); }
      if (!s1.empty() && !s2.empty() && d_oo(s1, s2, w)) { near_(a ? viennagrid::boundary_distance(acc, g1, g2) : viennagrid::boundary_distance(g1, g2), w, e.sc, "boundary distance of two segments"); pair_ok(a ? viennagrid::closest_points_on_boundary(acc, g1, g2) : viennagrid::closest_points_on_boundary(g1, g2), s1, s2, w, e.sc, "closest points on the boundary of two segments"); n += w > 0; }
    } }
  return n; } };

template<class M> void run(Src & s, vh::Case & c) {
  typedef typename Types<M>::CellTag T; typedef typename Types<M>::Point P; const int GD = P::dim, TD = Topo<T>::tdim; typedef typename viennagrid::result_of::segmentation<M>::type SG; typedef typename viennagrid::result_of::vertex<M>::type V;
  Env<M> e; bool cube = (int)Topo<T>::nv == (1 << TD) && TD > 1; GridOpt o; o.maxn = TD == 3 ? 1 : TD == 2 ? 2 : 4; if (cube) o.jitter = TD == 2 && GD == 2; 
  if (!cube && s.chance(50)) { o.perm = true; e.r = combinatorial(s, Topo<T>::nv, GD, Topo<T>::nv + 3, 4); if (s.chance(70)) for (auto & p : e.r.pts) for (double & x : p) x = (double)s.range_signed(3); std::vector<Cell> k; std::set<Cell> seen; for (auto & q : e.r.cells) { Ws v; for (int i : q) v.push_back(W(e.r.pts[(size_t)i])); if (shapely<T>(v) && seen.insert(sorted(q)).second) k.push_back(q); } e.r.cells = k; }
  else { e.r = grid<T>(s, GD, o); if (TD == GD && cube && s.chance(60)) { double a[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] = (i == j ? 1.0 : 0.0) + (double)s.range_signed(3) / 8.0; for (auto & p : e.r.pts) { Pt q; for (int i = 0; i < GD; ++i) { double x = 0; for (int j = 0; j < GD; ++j) x += a[i][j] * p[(size_t)j]; q.push_back(x); } p = q; } }
    std::vector<Cell> k; for (auto & q : e.r.cells) { Ws v; for (int i : q) v.push_back(W(e.r.pts[(size_t)i])); if (shapely<T>(v)) k.push_back(q); } e.r.cells = k; }
  if (e.r.cells.empty()) return; describe(c.desc, e.r); M mesh; SG sg(mesh); int ns = (int)s.range(1, 2); for (int i = 0; i < ns; ++i) sg.make_segment(); auto vh_ = add_vertices(mesh, e.r); std::vector<std::vector<int> > mem((size_t)ns);
  for (size_t i = 0; i < e.r.cells.size(); ++i) { auto h = add_cell(mesh, vh_, e.r.cells[i]); for (int k = 0; k < ns; ++k) if (s.chance(60)) { auto sh = sg[k]; viennagrid::add(sh, h); mem[(size_t)k].push_back((int)i); } }
  double f = (double)s.range(1, 8) / 4.0, sg_ = s.chance(50) ? 1 : -1; Pt t; for (int d = 0; d < GD; ++d) t.push_back((double)s.range_signed(8)); e.sc = 1; for (auto const & p : e.r.pts) { Pt q(p); for (int d = 0; d < GD; ++d) q[(size_t)d] = sg_ * f * p[(size_t)d] + t[(size_t)d]; e.altp.push_back(to_point<P>(q)); e.alt.push_back(W(q)); e.pt.push_back(W(p)); e.sc = std::max(e.sc, std::max(len(W(q)), len(W(p)))); }
  typename viennagrid::result_of::accessor<const std::vector<P>, V>::type acc(e.altp);
  // boundary of mesh and segments: facets of an odd number of their cells (C05)
  auto hull = [&](std::vector<int> const & ids, bool a) { std::map<Cell, int> n; std::map<Cell, Cell> ord; for (int i : ids) for (auto const & g : boundary<T>(e.r.cells[(size_t)i], TD - 1)) { ++n[sorted(g)]; ord[sorted(g)] = g; } Obj h; for (auto const & kv : n) if (kv.second % 2 == 1) h.push_back(e.ob(ord[kv.first], a)[0]); return h; };
  std::vector<int> allc; for (size_t i = 0; i < e.r.cells.size(); ++i) allc.push_back((int)i); Obj mb = hull(allc, false), mba = hull(allc, true); std::vector<Obj> sb, sba; for (auto const & m : mem) { sb.push_back(hull(m, false)); sba.push_back(hull(m, true)); }
  int hits = 0; auto cs = viennagrid::cells(mesh); auto es = viennagrid::elements<viennagrid::line_tag>(mesh); auto vs = viennagrid::vertices(mesh);
  int nq = (int)s.range(1, 4);
  for (int k = 0; k < nq; ++k) { // point queries: lattice points, combinations of the vertices of a cell, generic points
    size_t ci = (size_t)s.draw(e.r.cells.size()); bool a = s.chance(40); Pt q((size_t)GD, 0.0); auto coord = [&](int v, int d) { return a ? e.altp[(size_t)v][(size_t)d] : e.r.pts[(size_t)v][(size_t)d]; };
    switch (s.draw(3)) { case 0: for (int d = 0; d < GD; ++d) q[(size_t)d] = (double)s.range_signed(5) / (s.chance(30) ? 2 : 1); break; case 1: { double tot = 0; for (int v : e.r.cells[ci]) { double w = (double)s.range(-1, 4); tot += w; for (int d = 0; d < GD; ++d) q[(size_t)d] += w * coord(v, d); } if (tot != 0) for (double & x : q) x /= tot; break; } default: for (double & x : q) x = s.real(2); }
    P p = to_point<P>(q); W w(q); c.desc << " query " << (a ? "alt " : "") << ps(p) << " cell " << ci; LD sc = e.sc + len(w); Cell const & cell = e.r.cells[ci]; auto & ce = cs[ci]; Obj oc = e.ob(cell, a), op(1, Ws(1, w)); LD want = d_po(w, oc);
    near_(a ? viennagrid::distance(acc, p, ce) : viennagrid::distance(p, ce), want, sc, "distance of point and cell"); near_(a ? viennagrid::distance(acc, ce, p) : viennagrid::distance(ce, p), want, sc, "distance of cell and point");
    pair_ok(a ? viennagrid::closest_points(acc, p, ce) : viennagrid::closest_points(ce, p), op, oc, want, sc, "closest points of point and cell"); hits += want > 0;
    Obj ob = e.bd(cell, TD, a); LD bw = d_po(w, ob); near_(a ? viennagrid::boundary_distance(acc, p, ce) : viennagrid::boundary_distance(p, ce), bw, sc, "boundary distance of point and cell"); near_(a ? viennagrid::boundary_distance(acc, ce, p) : viennagrid::boundary_distance(ce, p), bw, sc, "boundary distance of cell and point");
    pair_ok(a ? viennagrid::closest_points_on_boundary(acc, p, ce) : viennagrid::closest_points_on_boundary(ce, p), op, ob, bw, sc, "closest points on the boundary of point and cell"); if (want == 0 && bw > 0) c.label("strictly inside");
    if (!(a ? mba : mb).empty()) { LD mw = d_po(w, a ? mba : mb); near_(a ? viennagrid::boundary_distance(acc, p, mesh) : viennagrid::boundary_distance(p, mesh), mw, sc, "boundary distance of point and mesh"); near_(a ? viennagrid::boundary_distance(acc, mesh, p) : viennagrid::boundary_distance(mesh, p), mw, sc, "boundary distance of mesh and point"); pair_ok(a ? viennagrid::closest_points_on_boundary(acc, mesh, p) : viennagrid::closest_points_on_boundary(mesh, p), op, a ? mba : mb, mw, sc, "closest points on the boundary of mesh and point"); }
    size_t sk = (size_t)s.draw((uint64_t)ns); Obj const & so = a ? sba[sk] : sb[sk]; auto sh = sg[(int)sk]; if (!so.empty()) { LD sw = d_po(w, so); near_(a ? viennagrid::boundary_distance(acc, p, sh) : viennagrid::boundary_distance(p, sh), sw, sc, "boundary distance of point and segment"); near_(a ? viennagrid::boundary_distance(acc, sh, p) : viennagrid::boundary_distance(sh, p), sw, sc, "boundary distance of segment and point"); pair_ok(a ? viennagrid::closest_points_on_boundary(acc, p, sh) : viennagrid::closest_points_on_boundary(sh, p), op, so, sw, sc, "closest points on the boundary of segment and point"); }
    size_t ei = (size_t)s.draw(es.size()); Cell ev = vids(es[ei]); Obj oe = e.ob(ev, a), obe = e.bd(ev, 1, a); if (len(oe[0][0] - oe[0][1]) > 0) { LD ew = d_po(w, oe); near_(a ? viennagrid::distance(acc, p, es[ei]) : viennagrid::distance(p, es[ei]), ew, sc, "distance of point and line"); near_(a ? viennagrid::distance(acc, es[ei], p) : viennagrid::distance(es[ei], p), ew, sc, "distance of line and point"); pair_ok(a ? viennagrid::closest_points(acc, es[ei], p) : viennagrid::closest_points(es[ei], p), op, oe, ew, sc, "closest points of point and line"); near_(a ? viennagrid::boundary_distance(acc, p, es[ei]) : viennagrid::boundary_distance(p, es[ei]), d_po(w, obe), sc, "boundary distance of point and line"); }
    size_t vi = (size_t)s.draw(vs.size()); LD vw = len(w - (a ? e.alt : e.pt)[vi]); near_(a ? viennagrid::distance(acc, p, vs[vi]) : viennagrid::distance(p, vs[vi]), vw, sc, "distance of point and vertex"); near_(a ? viennagrid::distance(acc, vs[vi], p) : viennagrid::distance(vs[vi], p), vw, sc, "distance of vertex and point"); near_(a ? viennagrid::boundary_distance(acc, p, vs[vi]) : viennagrid::boundary_distance(p, vs[vi]), vw, sc, "boundary distance of point and vertex"); near_(viennagrid::distance(p, viennagrid::point(vs[vi])), len(w - e.pt[vi]), sc, "distance of two points");
    if (len(oe[0][0] - oe[0][1]) > 0) { LD x = d_po((a ? e.alt : e.pt)[vi], oe); pair_ok(a ? viennagrid::closest_points(acc, vs[vi], es[ei]) : viennagrid::closest_points(vs[vi], es[ei]), Obj(1, Ws(1, (a ? e.alt : e.pt)[vi])), oe, x, sc, "closest points of vertex and line"); }
  }
  for (int k = 0; k < 3; ++k) { // line against line, line against the lines of a segment
    size_t i = (size_t)s.draw(es.size()), j = (size_t)s.draw(es.size()); bool a = s.chance(40); Cell vi = vids(es[i]), vj = vids(es[j]); Obj oi = e.ob(vi, a), oj = e.ob(vj, a); LD w; if (len(oi[0][0] - oi[0][1]) == 0 || len(oj[0][0] - oj[0][1]) == 0 || !d_oo(oi, oj, w)) continue; hits += w > 0 && i != j; if (w == 0 && i != j) c.label("touching lines");
    near_(a ? viennagrid::distance(acc, es[i], es[j]) : viennagrid::distance(es[i], es[j]), w, e.sc, "distance of two lines"); pair_ok(a ? viennagrid::closest_points(acc, es[i], es[j]) : viennagrid::closest_points(es[i], es[j]), oi, oj, w, e.sc, "closest points of two lines");
    size_t sk = (size_t)s.draw((uint64_t)ns); Obj so; std::set<Cell> seen; for (int q : mem[sk]) for (auto const & g : boundary<T>(e.r.cells[(size_t)q], 1)) if (TD == 1 || seen.insert(sorted(g)).second) so.push_back(e.ob(g, false)[0]); Obj oi0 = e.ob(vi, false); if (!so.empty() && d_oo(oi0, so, w)) { near_(viennagrid::distance(es[i], sg[(int)sk]), w, e.sc, "distance of a line and the lines of a segment"); near_(viennagrid::distance(sg[(int)sk], es[i]), w, e.sc, "distance of the lines of a segment and a line"); }
  }
  if (TD == 2) hits += Pairs<Topo<T>::tdim>::run(s, e, mesh, sg, acc, sb, sba, mb, mba);
  c.hit(hits > 1);
}
