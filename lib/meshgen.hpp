// Reference meshes (plain vectors) and their generators, plus builders for ViennaGrid meshes.
#ifndef MESHGEN_HPP
#define MESHGEN_HPP
#include "vh.hpp"
#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/forwards.hpp"
#include "viennagrid/point.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/element_creation.hpp"

namespace mg {
using vh::Src;
typedef std::vector<double> Pt;
typedef std::vector<int> Cell;
struct RefMesh { int gdim; std::vector<Pt> pts; std::vector<Cell> cells; };

// ---- reference topology (from the user manual, section "reference orientation") ----
template<class Tag> struct Topo;
typedef std::vector<std::vector<int> > Tab;
inline Tab tab(std::initializer_list<std::vector<int> > l) { return Tab(l); }
template<> struct Topo<viennagrid::line_tag> { enum { tdim = 1, nv = 2 }; static char const * name() { return "line"; }
  static Tab edges() { return tab({{0,1}}); } static Tab faces() { return Tab(); } };
template<> struct Topo<viennagrid::triangle_tag> { enum { tdim = 2, nv = 3 }; static char const * name() { return "triangle"; }
  static Tab edges() { return tab({{0,1},{0,2},{1,2}}); } static Tab faces() { return Tab(); } };
template<> struct Topo<viennagrid::quadrilateral_tag> { enum { tdim = 2, nv = 4 }; static char const * name() { return "quad"; }
  static Tab edges() { return tab({{0,1},{0,2},{1,3},{2,3}}); } static Tab faces() { return Tab(); } };
template<> struct Topo<viennagrid::tetrahedron_tag> { enum { tdim = 3, nv = 4 }; static char const * name() { return "tet"; }
  static Tab edges() { return tab({{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}); } static Tab faces() { return tab({{0,1,2},{0,1,3},{0,2,3},{1,2,3}}); } };
template<> struct Topo<viennagrid::hexahedron_tag> { enum { tdim = 3, nv = 8 }; static char const * name() { return "hex"; }
  static Tab edges() { return tab({{0,1},{0,2},{0,4},{1,3},{1,5},{2,3},{2,6},{3,7},{4,5},{4,6},{5,7},{6,7}}); }
  static Tab faces() { return tab({{0,1,2,3},{0,1,4,5},{0,2,4,6},{1,3,5,7},{2,3,6,7},{4,5,6,7}}); } };

inline std::vector<int> sub(Cell const & c, std::vector<int> const & idx) { std::vector<int> r; for (int i : idx) r.push_back(c[(size_t)i]); return r; }
inline std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
// boundary elements of dimension d of a cell (as vertex index lists in reference order)
template<class Tag> Tab boundary(Cell const & c, int d) {
  Tab r;
  if (d == 0) { for (int v : c) r.push_back(std::vector<int>(1, v)); return r; }
  if (d == Topo<Tag>::tdim) { r.push_back(c); return r; }
  Tab t = d == 1 ? Topo<Tag>::edges() : Topo<Tag>::faces();
  for (auto const & e : t) r.push_back(sub(c, e));
  return r;
}

// ---- symmetries of reference cells: permutations that keep the cell geometry valid ----
inline std::vector<int> cube_perm(Src & s, int d) {           // random automorphism of the d-cube (bit representation)
  std::vector<int> axes; for (int i = 0; i < d; ++i) axes.push_back(i);
  s.shuffle(axes); int flip = (int)s.draw(1u << d);
  std::vector<int> p; for (int v = 0; v < (1 << d); ++v) { int w = 0; for (int i = 0; i < d; ++i) if (v >> i & 1) w |= 1 << axes[(size_t)i]; p.push_back(w ^ flip); }
  return p;
}
template<class Tag> void permute_cell(Src & s, Cell & c) {
  if ((int)Topo<Tag>::nv == (1 << (int)Topo<Tag>::tdim) && (int)Topo<Tag>::tdim >= 2) { Cell o(c); std::vector<int> p = cube_perm(s, Topo<Tag>::tdim); for (size_t i = 0; i < c.size(); ++i) c[i] = o[(size_t)p[i]]; }
  else s.shuffle(c);
}

// ---- random combinatorial meshes: arbitrary distinct vertices per cell (possibly non-manifold) ----
inline double nice(Src & s) { return s.real(1.0); }
inline RefMesh combinatorial(Src & s, int nv_cell, int gdim, long max_v, long max_c) {
  RefMesh m; m.gdim = gdim; long n = s.size(nv_cell, max_v); if (n < nv_cell) n = nv_cell;
  for (long i = 0; i < n; ++i) { Pt p; for (int d = 0; d < gdim; ++d) p.push_back(nice(s)); m.pts.push_back(p); }
  long nc = s.size(0, max_c);
  for (long i = 0; i < nc; ++i) {
    Cell c; std::vector<int> idx; for (int k = 0; k < n; ++k) idx.push_back(k);
    for (int k = 0; k < nv_cell; ++k) { size_t j = (size_t)k + (size_t)s.draw(idx.size() - (size_t)k); std::swap(idx[(size_t)k], idx[j]); c.push_back(idx[(size_t)k]); }
    m.cells.push_back(c);
  }
  return m;
}

// ---- structured meshes: grid of cells, strictly positive spacing, optional jitter ----
struct GridOpt { bool jitter, drop, perm, embed, isolated; long maxn; int big; GridOpt() : jitter(true), drop(true), perm(true), embed(true), isolated(false), maxn(3), big(1) {} };   // big: percentage of meshes with hundreds of cells

inline std::vector<double> spacing(Src & s, long n) {
  std::vector<double> x; double cur = s.chance(50) ? 0.0 : (double)s.range_signed(8); bool uni = s.chance(40);
  for (long i = 0; i <= n; ++i) { x.push_back(cur); cur += uni ? 1.0 : (double)s.range(1, 8) / 4.0; }
  return x;
}

template<class Tag> RefMesh grid(Src & s, int gdim, GridOpt const & o) {
  const int td = Topo<Tag>::tdim; RefMesh m; m.gdim = gdim;
  long n[3] = {1, 1, 1}; std::vector<double> x[3]; bool big = o.big > 0 && s.chance(o.big); static const long blo[4] = {0, 130, 8, 3}, bhi[4] = {0, 700, 22, 6};
  for (int d = 0; d < 3; ++d) { if (d < td) { n[d] = big ? s.range(blo[td], bhi[td]) : s.size(1, o.maxn); x[d] = spacing(s, n[d]); } else { n[d] = 0; x[d].push_back(0.0); } }
  auto id = [&](long i, long j, long k) { return (int)(i + (n[0] + 1) * (j + (n[1] + 1) * k)); };
  double jit = (o.jitter && s.chance(60)) ? 0.05 : 0.0;
  for (long k = 0; k <= n[2]; ++k) for (long j = 0; j <= n[1]; ++j) for (long i = 0; i <= n[0]; ++i) {
    Pt p; double g[3] = {x[0][(size_t)i], x[1][(size_t)(td > 1 ? j : 0)], x[2][(size_t)(td > 2 ? k : 0)]};
    for (int d = 0; d < td; ++d) p.push_back(g[d] + (jit > 0 ? jit * (double)s.range_signed(64) / 64.0 : 0.0));
    m.pts.push_back(p);
  }
  bool five = s.chance(30);
  for (long k = 0; k < std::max<long>(n[2], 1); ++k) for (long j = 0; j < std::max<long>(n[1], 1); ++j) for (long i = 0; i < n[0]; ++i) {
    int c[8]; for (int b = 0; b < 8; ++b) c[b] = id(i + (b & 1), j + (b >> 1 & 1), k + (b >> 2 & 1));
    auto add = [&](std::initializer_list<int> l) { Cell q; for (int v : l) q.push_back(c[v]); m.cells.push_back(q); };
    if (td == 1) add({0, 1});
    else if (td == 2 && Topo<Tag>::nv == 4) add({0, 1, 2, 3});
    else if (td == 2) { if (s.chance(50)) { add({0, 1, 3}); add({0, 3, 2}); } else { add({0, 1, 2}); add({1, 3, 2}); } }
    else if (Topo<Tag>::nv == 8) add({0, 1, 2, 3, 4, 5, 6, 7});
    else if (five) {
      if ((i + j + k) % 2 == 0) { add({0, 1, 2, 4}); add({1, 3, 2, 7}); add({1, 5, 4, 7}); add({2, 4, 6, 7}); add({1, 2, 4, 7}); }
      else { add({0, 1, 3, 5}); add({0, 3, 2, 6}); add({0, 5, 4, 6}); add({3, 5, 6, 7}); add({0, 3, 5, 6}); }
    } else { add({0, 1, 3, 7}); add({0, 1, 5, 7}); add({0, 2, 3, 7}); add({0, 2, 6, 7}); add({0, 4, 5, 7}); add({0, 4, 6, 7}); }
  }
  if (o.embed && gdim > td) {     // random injective linear embedding
    double a[3][3]; for (int r = 0; r < 3; ++r) for (int q = 0; q < 3; ++q) a[r][q] = (r == q) ? 1.0 : (double)s.range_signed(3) / 4.0;
    double t[3] = {s.real(), s.real(), s.real()};
    for (auto & p : m.pts) { Pt r; for (int i = 0; i < gdim; ++i) { double v = t[i]; for (int q = 0; q < td; ++q) v += a[i][q] * p[(size_t)q]; r.push_back(v); } p = r; }
  } else for (auto & p : m.pts) p.resize((size_t)gdim, 0.0);
  if (o.drop && s.chance(40) && m.cells.size() > 1) { std::vector<Cell> keep; int pct = (int)s.range(10, 60); for (auto & q : m.cells) if (!s.chance(pct)) keep.push_back(q); if (!keep.empty()) m.cells = keep; }
  if (o.perm) {
    if (s.chance(60)) s.shuffle(m.cells);
    if (s.chance(70)) for (auto & q : m.cells) permute_cell<Tag>(s, q);
    if (s.chance(50)) { // renumber the vertices
      std::vector<int> p; for (size_t i = 0; i < m.pts.size(); ++i) p.push_back((int)i); s.shuffle(p);
      std::vector<Pt> np(m.pts.size()); for (size_t i = 0; i < m.pts.size(); ++i) np[(size_t)p[i]] = m.pts[i]; m.pts = np;
      for (auto & q : m.cells) for (int & v : q) v = p[(size_t)v];
    }
  }
  if (!o.isolated) { // drop unused vertices
    std::vector<int> map(m.pts.size(), -1); for (auto & q : m.cells) for (int v : q) map[(size_t)v] = 0;
    std::vector<Pt> np; for (size_t i = 0; i < m.pts.size(); ++i) if (map[i] == 0) { map[i] = (int)np.size(); np.push_back(m.pts[i]); }
    m.pts = np; for (auto & q : m.cells) for (int & v : q) v = map[(size_t)v];
  }
  return m;
}

template<class OS> void describe(OS & os, RefMesh const & m) {
  os << "pts"; for (auto const & p : m.pts) { os << "("; for (size_t i = 0; i < p.size(); ++i) os << (i ? "," : "") << p[i]; os << ")"; }
  os << " cells"; for (auto const & q : m.cells) { os << "["; for (size_t i = 0; i < q.size(); ++i) os << (i ? "," : "") << q[i]; os << "]"; }
}

// ---- ViennaGrid glue ----
template<class PointT> PointT to_point(Pt const & p) { PointT r; for (size_t i = 0; i < (size_t)PointT::dim && i < p.size(); ++i) r[i] = p[i]; return r; }
template<class PointT> Pt from_point(PointT const & p) { Pt r; for (size_t i = 0; i < (size_t)PointT::dim; ++i) r.push_back(p[i]); return r; }

template<class M> struct Types {
  typedef typename viennagrid::result_of::point<M>::type Point;
  typedef typename viennagrid::result_of::cell_tag<M>::type CellTag;
  typedef typename viennagrid::result_of::vertex<M>::type Vertex;
  typedef typename viennagrid::result_of::cell<M>::type Cell_;
  typedef typename viennagrid::result_of::vertex_handle<M>::type VH;
  typedef typename viennagrid::result_of::handle<M, CellTag>::type CH;
};
template<class M> typename Types<M>::CH add_cell(M & mesh, std::vector<typename Types<M>::VH> const & vh, Cell const & q) {
  std::vector<typename Types<M>::VH> h; for (int v : q) h.push_back(vh[(size_t)v]);
  return viennagrid::make_cell(mesh, h.begin(), h.end());
}
template<class M> std::vector<typename Types<M>::VH> add_vertices(M & mesh, RefMesh const & r) {
  std::vector<typename Types<M>::VH> vh;
  for (auto const & p : r.pts) vh.push_back(viennagrid::make_vertex(mesh, to_point<typename Types<M>::Point>(p)));
  return vh;
}
template<class M> void build(M & mesh, RefMesh const & r) { auto vh = add_vertices(mesh, r); for (auto const & q : r.cells) add_cell(mesh, vh, q); }

// vertex ids of any element, in its own order
template<class E> std::vector<int> vids(E const & e) {
  std::vector<int> r; typedef typename viennagrid::result_of::const_element_range<E, viennagrid::vertex_tag>::type R;
  R vs(e); for (typename viennagrid::result_of::iterator<R>::type it = vs.begin(); it != vs.end(); ++it) r.push_back((int)(*it).id().get());
  return r;
}
template<class W> std::vector<int> vids(viennagrid::element<viennagrid::vertex_tag, W> const & e) { return std::vector<int>(1, (int)e.id().get()); }
template<class OS> void put(OS & os, std::vector<int> const & v) { os << "{"; for (size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << v[i]; os << "}"; }
inline std::string str(std::vector<int> const & v) { std::ostringstream o; put(o, v); return o.str(); }
inline double norm(Pt const & a) { double r = 0; for (double x : a) r += x * x; return std::sqrt(r); }
inline Pt diff(Pt const & a, Pt const & b) { Pt r; for (size_t i = 0; i < a.size(); ++i) r.push_back(a[i] - b[i]); return r; }
inline bool close(double a, double b, double scale, double tol = 1e-9) { return std::fabs(a - b) <= tol * scale; }
} // namespace mg
#endif
