#include "meshgen.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/geometric_transform.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/mesh/segmentation.hpp"
using namespace mg; using vh::Case; typedef long double LD; typedef std::vector<LD> LP;
template<class P> struct CountFn { int * calls; double f; P t; P operator()(P const & p) const { ++*calls; P r(p); for (size_t i = 0; i < (size_t)P::dim; ++i) r[i] = t[i] + f * p[((int)i + 1) % P::dim]; return r; } };
inline LD det(std::vector<LD> const & a, int n) { if (n == 1) return a[0]; if (n == 2) return a[0] * a[3] - a[1] * a[2]; return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]); }
inline double coef(Src & s) { switch (s.draw(6)) { case 5: { static const double e[] = {-1, 1e-6, 1e6, -1e4, 1e-3, 1 + 1e-9}; return e[s.draw(6)]; } case 0: return 1; case 1: return 0; case 2: return (double)s.range_signed(6); case 3: return (double)s.range_signed(64) / 16; default: return (double)s.range_signed(1000) / 777.0; } }
template<class M> struct State { typedef typename Types<M>::Point P; M mesh; RefMesh r; std::vector<LP> want; std::vector<LD> mag; typename viennagrid::result_of::segmentation<M>::type sg; std::vector<std::set<int> > members; std::vector<Cell> edges; State() : sg(mesh) {} };
template<class M> void state_ok(State<M> & st, std::string const & after) { typedef typename Types<M>::Point P; const size_t D = (size_t)P::dim;
  auto vs = viennagrid::vertices(st.mesh); VH_EQ((size_t)vs.size(), st.r.pts.size(), "vertices" + after); for (size_t i = 0; i < st.r.pts.size(); ++i) { VH_EQ((size_t)vs[i].id().get(), i, "vertex id" + after); P const & p = viennagrid::point(st.mesh, vs[i]); for (size_t d = 0; d < D; ++d) VH_CHECK(std::fabs((LD)p[d] - st.want[i][d]) <= 1e-13L * st.mag[i], "coordinate " << d << " of vertex " << i << " is " << p[d] << ", expected " << (double)st.want[i][d] << after); }
  auto cs = viennagrid::cells(st.mesh); VH_EQ((size_t)cs.size(), st.r.cells.size(), "cells" + after); for (size_t i = 0; i < st.r.cells.size(); ++i) VH_EQ(str(vids(cs[i])), str(st.r.cells[i]), "vertices of cell " + std::to_string(i) + after);
  auto es = viennagrid::elements<viennagrid::line_tag>(st.mesh); VH_EQ((size_t)es.size(), st.edges.size(), "edges" + after); for (size_t i = 0; i < st.edges.size(); ++i) VH_EQ(str(vids(es[i])), str(st.edges[i]), "an edge" + after);
  for (size_t k = 0; k < st.members.size(); ++k) { std::set<int> got; auto sc = viennagrid::cells(st.sg[(int)k]); for (size_t i = 0; i < sc.size(); ++i) got.insert((int)sc[i].id().get()); VH_CHECK(got == st.members[k], "segment " << k << " changed" << after); } }
template<class M> void run(Src & s, Case & c) { typedef typename Types<M>::Point P; typedef typename Types<M>::CellTag T; const int D = P::dim, td = Topo<T>::tdim; GridOpt o; o.isolated = s.chance(40); o.maxn = 3; State<M> st; st.r = grid<T>(s, D, o); M & mesh = st.mesh; build(mesh, st.r); describe(c.desc, st.r);
  for (auto const & p : st.r.pts) { LP q; LD g = 1; for (double x : p) { q.push_back(x); g = std::max<LD>(g, std::fabs(x)); } st.want.push_back(q); st.mag.push_back(g); }
  { auto es = viennagrid::elements<viennagrid::line_tag>(mesh); for (size_t i = 0; i < es.size(); ++i) st.edges.push_back(vids(es[i])); }
  size_t ns = (size_t)s.draw(3); auto cs = viennagrid::cells(mesh); for (size_t k = 0; k < ns; ++k) { auto sh = st.sg.make_segment(); st.members.push_back(std::set<int>()); for (size_t i = 0; i < st.r.cells.size(); ++i) if (s.chance(40)) { viennagrid::add(sh, cs.handle_at(i)); st.members[k].insert((int)i); } }
  int nt = 0; long ops = s.range(1, 6); LD vol = viennagrid::volume(mesh); bool whole = true; LD factor = 1, cond = 1;
  for (long q = 0; q < ops; ++q) { std::ostringstream w; std::vector<LD> A((size_t)(D * D), 0); LP t((size_t)D, 0); LD slack = 0; int op = (int)s.draw(6); bool all = true; size_t seg = 0; P tp; for (int i = 0; i < D; ++i) tp[(size_t)i] = s.real(1.0);
    double f = coef(s); if (f == 0 && (op > 1 || !s.chance(50))) f = 2; bool aff = false;
    if (op == 0 || op == 1) { bool inte = s.chance(20) && f == (double)(int)f; for (int i = 0; i < D; ++i) A[(size_t)(i * D + i)] = f; if (op == 1) for (int i = 0; i < D; ++i) { t[(size_t)i] = (LD)tp[(size_t)i] - (LD)f * tp[(size_t)i]; slack = std::max<LD>(slack, std::fabs(tp[(size_t)i])); }
      bool onseg = ns && s.chance(25); if (onseg) { all = false; seg = (size_t)s.draw(ns); auto & sh = st.sg[(int)seg]; if (op == 0) viennagrid::scale(sh, f); else viennagrid::scale(sh, f, tp); }
      else if (op == 0) { if (inte) viennagrid::scale(mesh, (int)f); else viennagrid::scale(mesh, f); } else { if (inte) viennagrid::scale(mesh, (int)f, tp); else viennagrid::scale(mesh, f, tp); }
      w << " after scale by " << f; if (op == 1) w << " about " << tp; if (onseg) w << " of segment " << seg; if (f != 0 && s.chance(20) && all) { // inverse scaling cancels
        if (op == 0) viennagrid::scale(mesh, 1.0 / f); else viennagrid::scale(mesh, 1.0 / f, tp); for (int i = 0; i < D; ++i) { for (int j = 0; j < D; ++j) A[(size_t)(i * D + j)] = i == j; t[(size_t)i] = 0; } slack += std::fabs((LD)tp[0]) + 10; for (auto & g : st.mag) g *= 1 + std::fabs(f) + 1 / std::fabs(f); w << " and back"; } }
    else if (op <= 3) { double m[9]; for (int i = 0; i < D * D; ++i) { m[i] = coef(s); A[(size_t)i] = m[i]; } for (int i = 0; i < D; ++i) t[(size_t)i] = tp[(size_t)i]; if (ns && s.chance(20)) { all = false; seg = (size_t)s.draw(ns); auto & sh = st.sg[(int)seg]; viennagrid::affine_transform(sh, m, tp); } else viennagrid::affine_transform(mesh, m, tp); aff = true; w << " after affine transform "; for (int i = 0; i < D * D; ++i) w << m[i] << ","; w << " + " << tp; }
    else if (op == 4) { int calls = 0; CountFn<P> fn; fn.calls = &calls; fn.f = f; fn.t = tp; bool acc = s.chance(50); if (acc) viennagrid::geometric_transform(mesh, fn, viennagrid::default_point_accessor(mesh)); else viennagrid::geometric_transform(mesh, fn); VH_EQ((size_t)calls, st.r.pts.size(), "calls of the functor"); for (int i = 0; i < D; ++i) { A[(size_t)(i * D + (i + 1) % D)] = f; t[(size_t)i] = tp[(size_t)i]; } w << " after geometric_transform"; aff = true; }
    else { // explicit point storage: the mesh itself does not move
      std::vector<P> other; for (size_t i = 0; i < st.r.pts.size(); ++i) { P x; for (int d = 0; d < D; ++d) x[(size_t)d] = s.real(1.0); other.push_back(x); } std::vector<P> before(other); int calls = 0; CountFn<P> fn; fn.calls = &calls; fn.f = f; fn.t = tp; typedef typename Types<M>::Vertex V; typename viennagrid::result_of::accessor<std::vector<P>, V>::type acc(other); viennagrid::geometric_transform(mesh, fn, acc); VH_EQ((size_t)calls, before.size(), "calls of the functor"); for (size_t i = 0; i < before.size(); ++i) { int k = 0; fn.calls = &k; P e = fn(before[i]); for (int d = 0; d < D; ++d) VH_EQ(other[i][(size_t)d], e[(size_t)d], "transformed point of the accessor"); } state_ok(st, " after transforming other points"); continue; }
    std::set<int> touched; if (all) for (size_t i = 0; i < st.r.pts.size(); ++i) touched.insert((int)i); else { whole = false; for (int i : st.members[seg]) for (int v : st.r.cells[(size_t)i]) touched.insert(v); }
    LD an = 1; for (int i = 0; i < D; ++i) { LD rs = 0; for (int j = 0; j < D; ++j) rs += std::fabs(A[(size_t)(i * D + j)]); an = std::max(an, rs); }
    for (int v : touched) { LP n = t; LD g = slack; for (int i = 0; i < D; ++i) { g = std::max(g, std::fabs(t[(size_t)i])); for (int j = 0; j < D; ++j) n[(size_t)i] += A[(size_t)(i * D + j)] * st.want[(size_t)v][(size_t)j]; } st.want[(size_t)v] = n; st.mag[(size_t)v] = an * (st.mag[(size_t)v] + slack) + g; }
    state_ok(st, w.str()); ++nt; cond *= an; if (D == td || !aff) factor *= D == td ? std::fabs(det(A, D)) : std::pow(std::fabs(A[0]), (LD)td); else whole = false;
  }
  if (whole && !st.r.cells.empty()) { LD L = 1; for (LD g : st.mag) L = std::max(L, g); LD got = viennagrid::volume(mesh), want = vol * factor; bool general = td >= 2 && (int)Topo<T>::nv == (1 << td); if (!general) VH_CHECK(std::fabs(got - want) <= 1e-11L * (LD)st.r.cells.size() * std::pow(L, (LD)td), "volume " << (double)got << " after the transforms, expected " << (double)want); }
  c.hit(nt >= 1 && st.r.pts.size() > 2);
}
