// Refinement oracle: every child is located inside its parent by barycentric coordinates (combinatorially), and the
// children of every parent must tile it, agree on shared facets, and split exactly the requested edges.
#ifndef REFCHK_HPP
#define REFCHK_HPP
#include "meshgen.hpp"
#include "viennagrid/algorithm/refine.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include <memory>
namespace rc_ {
using namespace mg;
typedef std::pair<int, int> Edge;                 // a < b (vertex ids)
inline Edge edge(int a, int b) { return a < b ? Edge(a, b) : Edge(b, a); }
struct Snap { std::vector<Pt> pts; std::vector<Cell> cells; std::vector<std::set<int> > segs; std::set<Edge> edges; };
template<class M> Snap snap(M const & m) {
  Snap r; r.pts.resize(viennagrid::vertices(m).size());
  typedef typename viennagrid::result_of::const_vertex_range<M>::type VR; VR vr(m);
  for (typename viennagrid::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) { size_t id = (size_t)(*it).id().get(); VH_CHECK(id < r.pts.size() && r.pts[id].empty(), "vertex id " << id << " out of range or repeated"); r.pts[id] = from_point(viennagrid::point(m, *it)); }
  typedef typename viennagrid::result_of::const_cell_range<M>::type CR; CR cr(m);
  for (typename viennagrid::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it) r.cells.push_back(vids(*it));
  typedef typename viennagrid::result_of::const_line_range<M>::type LR; LR lr(m);
  for (typename viennagrid::result_of::iterator<LR>::type it = lr.begin(); it != lr.end(); ++it) { std::vector<int> v = vids(*it); r.edges.insert(edge(v[0], v[1])); }
  return r;
}
template<class M, class S> Snap snap(M const & m, S const & sg) {
  Snap r = snap(m); typedef typename viennagrid::result_of::const_cell_range<M>::type CR; CR cr(m);
  std::map<int, std::multiset<Cell> > members;
  for (typename viennagrid::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it) {
    std::set<int> ids; typedef typename viennagrid::result_of::segment_id_range<S, typename viennagrid::result_of::cell<M>::type>::type SR; SR sr = viennagrid::segment_ids(sg, *it);
    for (typename SR::iterator k = sr.begin(); k != sr.end(); ++k) { VH_CHECK(ids.insert((int)*k).second, "segment reported twice for a cell"); members[(int)*k].insert(vids(*it)); }
    r.segs.push_back(ids);
  }
  for (typename S::const_iterator k = sg.begin(); k != sg.end(); ++k) { std::multiset<Cell> got; auto cs = viennagrid::cells(*k); for (auto it = cs.begin(); it != cs.end(); ++it) got.insert(vids(*it)); VH_CHECK(got == members[(int)(*k).id()], "cells of segment " << (*k).id() << " differ from the cells reporting that segment"); }
  return r;
}
inline bool same(Snap const & a, Snap const & b) { return a.pts == b.pts && a.cells == b.cells && a.segs == b.segs && a.edges == b.edges; }

inline double det(std::vector<std::vector<double> > a) {
  double d = 1; size_t n = a.size();
  for (size_t i = 0; i < n; ++i) {
    size_t p = i; for (size_t k = i + 1; k < n; ++k) if (std::fabs(a[k][i]) > std::fabs(a[p][i])) p = k;
    if (a[p][i] == 0) return 0; if (p != i) { std::swap(a[p], a[i]); d = -d; } d *= a[i][i];
    for (size_t k = i + 1; k < n; ++k) { double f = a[k][i] / a[i][i]; for (size_t j = i; j < n; ++j) a[k][j] -= f * a[i][j]; }
  }
  return d;
}
// split: edge -> position of the new vertex (parameter along a->b)
template<class Tag> void verify(Snap const & in, Snap const & out, std::map<Edge, double> const & split, bool segs, char const * what) {
  const size_t n = Topo<Tag>::nv; double scale = 1; for (auto const & p : in.pts) for (double x : p) scale = std::max(scale, std::fabs(x));
  std::set<int> used; for (auto const & q : in.cells) used.insert(q.begin(), q.end());
  // expected vertices: key (a,a) original or (a,b) new
  std::vector<std::pair<Edge, Pt> > exp;
  for (int v : used) exp.push_back(std::make_pair(Edge(v, v), in.pts[(size_t)v]));
  for (auto const & e : split) { Pt p; Pt const & a = in.pts[(size_t)e.first.first]; Pt const & b = in.pts[(size_t)e.first.second]; for (size_t i = 0; i < a.size(); ++i) p.push_back(a[i] + e.second * (b[i] - a[i])); exp.push_back(std::make_pair(e.first, p)); }
  VH_CHECK(exp.size() == out.pts.size(), what << ": " << out.pts.size() << " vertices after refinement, expected " << used.size() << " original and " << split.size() << " new ones");
  std::vector<Edge> key(out.pts.size()); std::vector<char> taken(exp.size(), 0);
  std::multimap<double, size_t> byx; for (size_t i = 0; i < exp.size(); ++i) byx.insert(std::make_pair(exp[i].second[0], i));
  for (size_t i = 0; i < out.pts.size(); ++i) {
    long best = -1; Pt const & p = out.pts[i];
    for (auto it = byx.lower_bound(p[0] - 1e-9 * scale); it != byx.end() && it->first <= p[0] + 1e-9 * scale; ++it) {
      size_t k = it->second; if (taken[k]) continue; bool eq = true, exact = exp[k].first.first == exp[k].first.second;
      for (size_t d = 0; d < p.size(); ++d) if (exact ? p[d] != exp[k].second[d] : std::fabs(p[d] - exp[k].second[d]) > 1e-9 * scale) eq = false;
      if (eq) { best = (long)k; break; }
    }
    if (best < 0) { std::ostringstream o; o.precision(17); for (double x : p) o << x << " "; VH_CHECK(false, what << ": unexpected vertex " << o.str()); }
    taken[(size_t)best] = 1; key[i] = exp[(size_t)best].first;
  }
  std::map<Cell, std::vector<size_t> > parents; for (size_t i = 0; i < in.cells.size(); ++i) parents[sorted(in.cells[i])].push_back(i);
  std::vector<std::vector<size_t> > kids(in.cells.size());
  for (size_t i = 0; i < out.cells.size(); ++i) {
    std::set<int> sup; for (int v : out.cells[i]) { sup.insert(key[(size_t)v].first); sup.insert(key[(size_t)v].second); }
    auto f = parents.find(Cell(sup.begin(), sup.end()));
    VH_CHECK(f != parents.end(), what << ": cell " << str(out.cells[i]) << " of the refined mesh is not a proper part of any original cell");
    kids[f->second[0]].push_back(i);
  }
  std::map<Cell, std::map<size_t, std::set<std::set<int> > > > onfacet;       // original facet -> parent -> pieces
  for (size_t P = 0; P < in.cells.size(); ++P) {
    Cell const & q = in.cells[P]; double sum = 0; std::map<std::set<int>, int> sides;   // child facet -> count
    size_t nsplit = 0; for (size_t a = 0; a < n; ++a) for (size_t b = a + 1; b < n; ++b) if (split.count(edge(q[a], q[b]))) ++nsplit;
    VH_CHECK(!kids[P].empty(), what << ": original cell " << str(q) << " has no children");
    if (nsplit == 0) { VH_CHECK(kids[P].size() == 1, what << ": untouched cell " << str(q) << " was split"); Cell o; for (int v : out.cells[kids[P][0]]) o.push_back(key[(size_t)v].first); VH_CHECK(o == q, what << ": untouched cell " << str(q) << " became " << str(o)); }
    for (size_t k : kids[P]) {
      Cell const & ch = out.cells[k]; std::vector<std::vector<double> > B;
      for (int v : ch) { std::vector<double> row(n, 0.0); Edge e = key[(size_t)v]; for (size_t j = 0; j < n; ++j) { if (e.first == e.second) { if (q[j] == e.first) row[j] = 1; } else { double t = split.find(e)->second; if (q[j] == e.first) row[j] = 1 - t; if (q[j] == e.second) row[j] = t; } } B.push_back(row); }
      double d = det(B); VH_CHECK(std::fabs(d) > 1e-13, what << ": child " << str(ch) << " of cell " << str(q) << " is degenerate"); VH_CHECK(d > 0, what << ": child " << str(ch) << " of cell " << str(q) << " has the opposite orientation"); sum += std::fabs(d);
      for (int a : ch) for (int b : ch) { Edge x = key[(size_t)a], y = key[(size_t)b]; if (a < b && x.first == x.second && y.first == y.second) VH_CHECK(!split.count(edge(x.first, y.first)), what << ": child " << str(ch) << " contains the unsplit edge " << x.first << "-" << y.first << " that was to be split"); }
      for (size_t o = 0; o < n; ++o) { // facet opposite to vertex o
        std::set<int> f, sup; for (size_t j = 0; j < n; ++j) if (j != o) { f.insert(ch[j]); sup.insert(key[(size_t)ch[j]].first); sup.insert(key[(size_t)ch[j]].second); }
        if (sup.size() < n) { VH_CHECK(sup.size() == n - 1, what << ": degenerate facet"); VH_CHECK(onfacet[Cell(sup.begin(), sup.end())][P].insert(f).second, what << ": two children of " << str(q) << " cover the same part of its boundary"); }
        else { // interior: remember the side via the sign of the determinant of the facet (sorted) plus the opposite vertex
          std::vector<std::vector<double> > C; for (int v : f) for (size_t j = 0; j < n; ++j) if (ch[j] == v) C.push_back(B[j]); C.push_back(B[o]); int sg = det(C) > 0 ? 1 : 16; sides[f] += sg; }
      }
    }
    VH_CHECK(std::fabs(sum - 1.0) < 1e-9, what << ": the children of cell " << str(q) << " have " << sum << " times its measure");
    for (auto const & f : sides) VH_CHECK(f.second == 17, what << ": inside cell " << str(q) << " a facet is not shared by exactly two children on opposite sides");
    if (segs) for (size_t k : kids[P]) VH_CHECK(out.segs[k] == in.segs[P], what << ": child " << str(out.cells[k]) << " is not in the segments of its parent " << str(q));
  }
  for (auto const & f : onfacet) for (auto const & a : f.second) VH_CHECK(a.second == f.second.begin()->second, what << ": facet " << str(f.first) << " is split differently by the cells sharing it");
  std::set<Edge> ed; for (auto const & q : out.cells) for (auto const & b : boundary<Tag>(q, 1)) ed.insert(edge(b[0], b[1]));
  VH_CHECK(ed == out.edges, what << ": edges of the refined mesh do not match its cells");
}

template<class M> void run(vh::Src & s, vh::Case & c) {
  typedef typename Types<M>::CellTag T; typedef typename viennagrid::result_of::cell<M>::type CellT; typedef typename viennagrid::result_of::line<M>::type EdgeT; typedef typename viennagrid::result_of::segmentation<M>::type SG;
  const int GD = Types<M>::Point::dim; GridOpt o; o.maxn = Topo<T>::tdim == 3 ? 2 : 4; RefMesh r;
  if (Topo<T>::tdim == 3 && s.chance(35)) { // one to four tetrahedra around a common face or edge, arbitrary shapes
    r.gdim = 3; double e = s.chance(40) ? 0.0 : 0.35; auto J = [&]() { return e * (double)s.range_signed(100) / 100.0; };
    auto add = [&](double x, double y, double z) { r.pts.push_back(Pt{x + J(), y + J(), z + J()}); };
    add(0, 0, 0); add(2, 0, 0); add(0, 2, 0); add(0, 0, 2); long k = s.range(1, 4); r.cells.push_back(Cell{0, 1, 2, 3});
    if (k > 1) { add(2, 2, 2); r.cells.push_back(Cell{1, 2, 3, 4}); } if (k > 2) { add(-2, 0, 0); r.cells.push_back(Cell{0, 2, 3, 5}); } if (k > 3) { add(0, 0, -2); r.cells.push_back(Cell{0, 1, 2, 6}); }
    if (s.chance(80)) for (auto & q : r.cells) s.shuffle(q); if (s.chance(50)) s.shuffle(r.cells);
    std::vector<int> p; for (size_t i = 0; i < r.pts.size(); ++i) p.push_back((int)i); if (s.chance(60)) s.shuffle(p); std::vector<Pt> np(r.pts.size()); for (size_t i = 0; i < p.size(); ++i) np[(size_t)p[i]] = r.pts[i]; r.pts = np; for (auto & q : r.cells) for (int & v : q) v = p[(size_t)v];
  } else r = grid<T>(s, GD, o);
  describe(c.desc, r); bool segs = s.chance(60); int nseg = segs ? (int)s.range(1, 3) : 0;
  std::unique_ptr<M> mesh(new M); std::unique_ptr<SG> sg(new SG(*mesh)); { auto vh_ = add_vertices(*mesh, r); for (int i = 0; i < nseg; ++i) sg->make_segment(); for (auto const & q : r.cells) { auto h = add_cell(*mesh, vh_, q); for (int i = 0; i < nseg; ++i) if (s.chance(50)) { auto sh = (*sg)[i]; viennagrid::add(sh, h); } } }
  long levels = s.size(1, 3); size_t partial = 0;
  for (long lv = 0; lv < levels; ++lv) {
    Snap in = segs ? snap(*mesh, *sg) : snap(*mesh); if (in.cells.size() > 500) break;
    M const & cm = *mesh; SG const & csg = *sg; std::unique_ptr<M> out(new M); std::unique_ptr<SG> osg(new SG(*out)); std::map<Edge, double> split; std::string what;
    typedef typename viennagrid::result_of::const_line_range<M>::type LR; LR lr(cm); typedef typename viennagrid::result_of::const_cell_range<M>::type CR; CR cr(cm);
    switch (s.draw(6)) {
      case 0: { what = "refine_uniformly"; for (auto const & e : in.edges) split[e] = 0.5;
        bool alt = s.chance(50); if (segs) { if (alt) viennagrid::cell_refine_uniformly(cm, csg, *out, *osg); else viennagrid::refine_uniformly<T>(cm, csg, *out, *osg); } else { if (alt) viennagrid::cell_refine_uniformly(cm, *out); else viennagrid::refine_uniformly<T>(cm, *out); } break; }
      case 1: case 2: { what = "cell_refine"; int pct = (int)s.range(5, 95); std::vector<bool> cont; typename viennagrid::result_of::field<std::vector<bool>, CellT>::type f(cont); size_t nm = 0;
        bool presize = s.chance(50); for (typename viennagrid::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it) { bool m = s.chance(pct); if (m || presize) f(*it) = m; if (m) { ++nm; for (auto const & b : boundary<T>(vids(*it), 1)) split[edge(b[0], b[1])] = 0.5; } }
        if (!nm) for (typename viennagrid::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it) f(*it) = false;
        bool alt = s.chance(50); if (segs) { if (alt) viennagrid::cell_refine(cm, csg, *out, *osg, f); else viennagrid::element_refine<T>(cm, csg, *out, *osg, f); } else { if (alt) viennagrid::cell_refine(cm, *out, f); else viennagrid::element_refine<T>(cm, *out, f); } break; }
      case 3: case 4: { what = "refine"; int pct = (int)s.range(5, 95); std::deque<bool> cont; typename viennagrid::result_of::accessor<std::deque<bool>, EdgeT>::type f(cont);
        for (typename viennagrid::result_of::iterator<LR>::type it = lr.begin(); it != lr.end(); ++it) { bool m = s.chance(pct); f(*it) = m; if (m) { std::vector<int> v = vids(*it); split[edge(v[0], v[1])] = 0.5; } }
        if (s.chance(30)) { what = "refine after ensure_longest_edge_refinement"; viennagrid::ensure_longest_edge_refinement<T>(cm, f); std::map<Edge, double> now;
          for (typename viennagrid::result_of::iterator<LR>::type it = lr.begin(); it != lr.end(); ++it) if (f(*it)) { std::vector<int> v = vids(*it); now[edge(v[0], v[1])] = 0.5; }
          for (auto const & e : split) VH_CHECK(now.count(e.first), "ensure_longest_edge_refinement unmarked an edge"); std::set<Edge> longest;
          for (auto const & q : in.cells) { double L = 0; bool any = false, ok = false; for (auto const & b : boundary<T>(q, 1)) { L = std::max(L, norm(diff(in.pts[(size_t)b[0]], in.pts[(size_t)b[1]]))); if (now.count(edge(b[0], b[1]))) any = true; } for (auto const & b : boundary<T>(q, 1)) if (norm(diff(in.pts[(size_t)b[0]], in.pts[(size_t)b[1]])) > L * (1 - 1e-12)) { longest.insert(edge(b[0], b[1])); if (now.count(edge(b[0], b[1]))) ok = true; } VH_CHECK(!any || ok, "ensure_longest_edge_refinement: cell " << str(q) << " has a marked edge but its longest edge is unmarked"); }
          for (auto const & e : now) VH_CHECK(split.count(e.first) || longest.count(e.first), "ensure_longest_edge_refinement marked an edge that is no cell's longest one"); if (split.empty()) VH_CHECK(now.empty(), "ensure_longest_edge_refinement marked edges of an unmarked mesh"); split = now; }
        if (segs) viennagrid::refine<T>(cm, csg, *out, *osg, f); else viennagrid::refine<T>(cm, *out, f); break; }
      default: { what = "hyperplane_refine"; Pt n, p; bool ax = s.chance(50); int a = (int)s.draw((uint64_t)GD); for (int d = 0; d < GD; ++d) n.push_back(ax ? (d == a ? 1.0 : 0.0) : (double)s.range_signed(5)); if (norm(n) == 0) n[0] = 1; if (s.chance(30)) for (double & x : n) x = -x;
        p = in.pts[(size_t)s.draw(in.pts.size())]; if (s.chance(60)) { Pt const & q = in.pts[(size_t)s.draw(in.pts.size())]; double t = (double)s.range(1, 9) / 10.0; for (int d = 0; d < GD; ++d) p[(size_t)d] += t * (q[(size_t)d] - p[(size_t)d]); }
        std::vector<double> D; bool fuzzy = false; for (auto const & x : in.pts) { double v = 0; for (int d = 0; d < GD; ++d) v += n[(size_t)d] * (x[(size_t)d] - p[(size_t)d]); if (std::fabs(v) < 1e-10) v = 0; else if (std::fabs(v) < 1e-3) fuzzy = true; D.push_back(v); }
        if (fuzzy) { levels = lv; continue; }
        for (auto const & e : in.edges) { double x = D[(size_t)e.first], y = D[(size_t)e.second]; if (x * y < 0) split[e] = x / (x - y); }
        typename Types<M>::Point hp = to_point<typename Types<M>::Point>(p), hn = to_point<typename Types<M>::Point>(n);
        if (segs) viennagrid::hyperplane_refine(cm, csg, *out, *osg, hp, hn, 1e-8); else viennagrid::hyperplane_refine(cm, *out, hp, hn, 1e-8); }
    }
    c.desc << " | " << what << "(" << split.size() << "/" << in.edges.size() << " edges" << (segs ? ", segments" : "") << ")"; c.label(what); if (segs) c.label("segments"); if (lv) c.label("repeated");
    if (!split.empty() && split.size() < in.edges.size()) ++partial;
    Snap after = segs ? snap(*mesh, *sg) : snap(*mesh); VH_CHECK(same(in, after), what << " modified its input mesh or segmentation");
    Snap res = segs ? snap(*out, *osg) : snap(*out); verify<T>(in, res, split, segs, what.c_str());
    { double vi = viennagrid::volume(cm), vo = viennagrid::volume(*out); VH_CHECK(std::fabs(vi - vo) <= 1e-9 * std::fabs(vi), what << ": measure of the mesh changed from " << vi << " to " << vo); }
    sg.reset(); mesh.reset(); mesh = std::move(out); sg = std::move(osg);
  }
  c.hit(partial > 0);
}
} // namespace rc_
#endif
