#include "meshgen.hpp"
#include "viennagrid/algorithm/extract_boundary.hpp"
#include "viennagrid/algorithm/extract_seed_points.hpp"
using namespace mg; using vh::Case; typedef long double LD; typedef std::vector<int> Key;
template<class Tag> RefMesh gen(Src & s, int gdim) { GridOpt o; o.jitter = false; o.maxn = 4; o.isolated = s.chance(30); return grid<Tag>(s, gdim, o); }
template<class Tag> RefMesh gen_any(Src & s, int gdim) { // includes facets shared by more than two cells
  if (s.chance(60)) return gen<Tag>(s, gdim); RefMesh m = combinatorial(s, Topo<Tag>::nv, gdim, (int)Topo<Tag>::nv + 4, 8); std::set<Key> seen; std::vector<Cell> k; for (auto & q : m.cells) if (seen.insert(sorted(q)).second) k.push_back(q); m.cells = k; return m; }
// boundary elements of dimension d of the cells in the list: those in a facet of an odd number of these cells
template<class Tag> std::set<Key> ref_boundary(RefMesh const & m, std::vector<int> const & cells, int d) { const int td = Topo<Tag>::tdim; std::map<Key, int> n; std::map<Key, Cell> rep; std::set<Key> r;
  for (int i : cells) for (auto const & f : boundary<Tag>(m.cells[(size_t)i], td - 1)) { n[sorted(f)]++; rep[sorted(f)] = f; }
  if (d == td - 1) { for (auto const & k : n) if (k.second % 2) r.insert(k.first); return r; }
  for (int i : cells) for (auto const & e : boundary<Tag>(m.cells[(size_t)i], d)) { Key ke = sorted(e); for (auto const & f : boundary<Tag>(m.cells[(size_t)i], td - 1)) { Key kf = sorted(f); if (n[kf] % 2 && std::includes(kf.begin(), kf.end(), ke.begin(), ke.end())) r.insert(ke); } }
  return r; }
struct SegGen { std::vector<std::vector<int> > cells; std::vector<int> ids; };
template<class M, class SG> SegGen make_segments(Src & s, Case & c, RefMesh const & m, M & mesh, SG & sg) { SegGen g; auto cs = viennagrid::cells(mesh); size_t n = (size_t)s.range(0, 3); bool part = s.chance(50); int id = 0; for (size_t k = 0; k < n; ++k) { g.cells.push_back({}); id = s.chance(60) ? id + (k > 0) : id + 1 + (int)s.draw(5); g.ids.push_back(id); }
  for (size_t k = 0; k < n; ++k) { typename viennagrid::result_of::segment_handle<SG>::type & h = sg.get_make_segment(g.ids[k]); VH_EQ((int)h.id(), g.ids[k], "id of a new segment"); }
  for (size_t i = 0; i < m.cells.size() && n; ++i) for (size_t k = 0; k < n; ++k) if (part ? (k == (size_t)s.draw(n)) : s.chance(40)) { viennagrid::add(sg.get_make_segment(g.ids[k]), cs.handle_at(i)); g.cells[k].push_back((int)i); if (part) break; }
  for (size_t k = 0; k < n; ++k) { c.desc << " segment" << g.ids[k] << "=" << str(g.cells[k]); } return g; }
// hull elements as coordinates: maps each hull element to vertices of the volume mesh (coordinates are pairwise different)
typedef std::map<Pt, int> PtIdx;
template<class H, class Dom> std::multiset<Key> hull_keys(H const & hull, Dom const & dom, PtIdx const & idx) { typedef typename viennagrid::result_of::cell_tag<H>::type HT; std::multiset<Key> r; auto es = viennagrid::elements<HT>(dom); for (auto it = es.begin(); it != es.end(); ++it) { Key k; for (int v : vids(*it)) { auto vs = viennagrid::vertices(hull); Pt p = from_point(viennagrid::point(hull, vs[(size_t)v])); auto f = idx.find(p); VH_CHECK(f != idx.end(), "a hull vertex is no vertex of the mesh"); k.push_back(f->second); } r.insert(sorted(k)); } return r; }
template<class H> void hull_ok(H const & hull, std::set<Key> const & want, PtIdx const & idx, RefMesh const & m, std::string const & what) {
  std::multiset<Key> got = hull_keys(hull, hull, idx); for (auto const & k : got) { VH_CHECK(want.count(k), what << " holds " << str(k) << ", which is no boundary element"); VH_CHECK(got.count(k) == 1, what << " holds " << str(k) << " " << got.count(k) << " times"); } for (auto const & k : want) VH_CHECK(got.count(k), what << " lacks " << str(k));
  std::set<int> used; for (auto const & k : want) used.insert(k.begin(), k.end()); std::set<int> hv; auto vs = viennagrid::vertices(hull); for (size_t i = 0; i < vs.size(); ++i) { Pt p = from_point(viennagrid::point(hull, vs[i])); auto f = idx.find(p); VH_CHECK(f != idx.end(), what << ": a vertex is no vertex of the mesh"); VH_CHECK(hv.insert(f->second).second, what << ": vertex " << f->second << " twice"); VH_CHECK(used.count(f->second), what << ": vertex " << f->second << " is not on the boundary"); }
  VH_EQ(hv.size(), used.size(), what + ": vertices"); (void)m; }
template<class H> void pollute(Src & s, H & h) { typedef typename Types<H>::CellTag T; RefMesh r = combinatorial(s, Topo<T>::nv, (int)Types<H>::Point::dim, (int)Topo<T>::nv + 2, 4); build(h, r); }
template<class M, class H> void run_hull(Src & s, Case & c) { typedef typename Types<M>::CellTag T; typedef typename Types<H>::CellTag HT; const int d = Topo<HT>::tdim, td = Topo<T>::tdim; RefMesh m = gen_any<T>(s, (int)Types<M>::Point::dim); PtIdx idx; for (size_t i = 0; i < m.pts.size(); ++i) { while (idx.count(m.pts[i])) m.pts[i][0] += 1000.0; idx[m.pts[i]] = (int)i; } describe(c.desc, m);
  M mesh; build(mesh, m); typedef typename viennagrid::result_of::segmentation<M>::type SG; typedef typename viennagrid::result_of::segmentation<H>::type HSG; std::vector<int> all; for (size_t i = 0; i < m.cells.size(); ++i) all.push_back((int)i); std::set<Key> want = ref_boundary<T>(m, all, d);
  H hull; if (s.chance(30)) pollute(s, hull); if (d == td - 1 && s.chance(50)) viennagrid::extract_boundary<HT>(mesh, hull); else viennagrid::extract_boundary<HT>(mesh, hull); hull_ok(hull, want, idx, m, "hull");
  SG sg(mesh); SegGen g = make_segments(s, c, m, mesh, sg); H h2; HSG hs(h2); if (s.chance(30)) { pollute(s, h2); auto x = hs.make_segment(); auto y = hs.make_segment(); (void)y; auto hc = viennagrid::cells(h2); for (size_t i = 0; i < hc.size(); ++i) viennagrid::add(x, hc.handle_at(i)); }
  viennagrid::extract_boundary<HT>(mesh, sg, h2, hs);
  if (g.ids.empty()) { hull_ok(h2, want, idx, m, "hull of a mesh without segments"); VH_EQ((size_t)hs.size(), (size_t)0, "hull segments"); }
  else { std::set<Key> un; for (auto const & q : g.cells) { auto w = ref_boundary<T>(m, q, d); un.insert(w.begin(), w.end()); } hull_ok(h2, un, idx, m, "hull of the segments"); VH_EQ((size_t)hs.size(), g.ids.size(), "hull segments"); size_t k = 0; std::set<int> seen;
    for (auto it = hs.begin(); it != hs.end(); ++it, ++k) { int id = (int)it->id(); size_t j = (size_t)(std::find(g.ids.begin(), g.ids.end(), id) - g.ids.begin()); VH_CHECK(j < g.ids.size() && seen.insert(id).second, "hull segment with id " << id); auto w = ref_boundary<T>(m, g.cells[j], d); std::multiset<Key> got = hull_keys(h2, *it, idx); for (auto const & q : got) VH_CHECK(w.count(q) && got.count(q) == 1, "hull segment " << id << " holds " << str(q) << " " << got.count(q) << " times, is boundary: " << w.count(q)); for (auto const & q : w) VH_CHECK(got.count(q), "hull segment " << id << " lacks " << str(q)); } }
  c.hit(m.cells.size() > 1 && !want.empty()); if (g.ids.size() > 1) c.label("several segments"); }
// facet version without explicit tag
template<class M, class H> void run_facet(Src & s, Case & c) { typedef typename Types<M>::CellTag T; RefMesh m = gen_any<T>(s, (int)Types<M>::Point::dim); PtIdx idx; for (size_t i = 0; i < m.pts.size(); ++i) { while (idx.count(m.pts[i])) m.pts[i][0] += 1000.0; idx[m.pts[i]] = (int)i; } describe(c.desc, m); M mesh; build(mesh, m); std::vector<int> all; for (size_t i = 0; i < m.cells.size(); ++i) all.push_back((int)i); const int td = Topo<T>::tdim; std::set<Key> want = ref_boundary<T>(m, all, td - 1);
  H hull; viennagrid::extract_boundary(mesh, hull); hull_ok(hull, want, idx, m, "hull"); typename viennagrid::result_of::segmentation<M>::type sg(mesh); SegGen g = make_segments(s, c, m, mesh, sg); H h2; typename viennagrid::result_of::segmentation<H>::type hs(h2); viennagrid::extract_boundary(mesh, sg, h2, hs); std::set<Key> un; for (auto const & q : g.cells) { auto w = ref_boundary<T>(m, q, td - 1); un.insert(w.begin(), w.end()); } hull_ok(h2, g.ids.empty() ? want : un, idx, m, "hull of the segments"); c.hit(m.cells.size() > 1 && !want.empty()); }

// ---- seed points ----
typedef std::vector<LD> LP;
inline bool in_simplex(Pt const & p, std::vector<Pt> const & v, LD margin) { size_t n = v.size() - 1, D = p.size(); LD scale = 0; std::vector<LP> e(n, LP(D)); LP q(D); for (size_t i = 0; i < n; ++i) for (size_t d = 0; d < D; ++d) { e[i][d] = (LD)v[i + 1][d] - v[0][d]; scale = std::max(scale, std::fabs(e[i][d])); } for (size_t d = 0; d < D; ++d) q[d] = (LD)p[d] - v[0][d];
  LD g[3][4]; for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { g[i][j] = 0; for (size_t d = 0; d < D; ++d) g[i][j] += e[i][d] * e[j][d]; } g[i][n] = 0; for (size_t d = 0; d < D; ++d) g[i][n] += e[i][d] * q[d]; }
  for (size_t i = 0; i < n; ++i) { size_t b = i; for (size_t r = i; r < n; ++r) if (std::fabs(g[r][i]) > std::fabs(g[b][i])) b = r; for (size_t k = 0; k <= n; ++k) std::swap(g[i][k], g[b][k]); if (g[i][i] == 0) return false; for (size_t r = 0; r < n; ++r) if (r != i) { LD f = g[r][i] / g[i][i]; for (size_t k = i; k <= n; ++k) g[r][k] -= f * g[i][k]; } }
  LD sum = 0; LP x = q; for (size_t i = 0; i < n; ++i) { LD l = g[i][n] / g[i][i]; if (l < margin) return false; sum += l; for (size_t d = 0; d < D; ++d) x[d] -= l * e[i][d]; } if (sum > 1 - margin) return false; for (LD r : x) if (std::fabs(r) > 1e-7L * (scale + 1)) return false; return true; }
template<class Tag> bool in_cell(RefMesh const & m, Cell const & c, Pt const & p, LD mg_) { Tab t; if ((int)Topo<Tag>::nv == (int)Topo<Tag>::tdim + 1) { std::vector<int> a; for (int i = 0; i < (int)Topo<Tag>::nv; ++i) a.push_back(i); t.push_back(a); } else if (Topo<Tag>::nv == 4) t = tab({{0,1,3},{0,3,2}}); else t = tab({{0,1,3,7},{0,1,5,7},{0,2,3,7},{0,2,6,7},{0,4,5,7},{0,4,6,7}}); for (auto const & q : t) { std::vector<Pt> v; for (int i : q) v.push_back(m.pts[(size_t)c[(size_t)i]]); if (in_simplex(p, v, mg_)) return true; } return false; }
template<class Tag> std::vector<int> components(RefMesh const & m, std::vector<int> const & cells) { std::vector<int> comp(m.cells.size(), -1); std::map<Key, std::vector<int> > f; for (int i : cells) for (auto const & k : boundary<Tag>(m.cells[(size_t)i], (int)Topo<Tag>::tdim - 1)) f[sorted(k)].push_back(i); int n = 0; for (int i : cells) { if (comp[(size_t)i] >= 0) continue; std::vector<int> st(1, i); comp[(size_t)i] = n; while (!st.empty()) { int u = st.back(); st.pop_back(); for (auto const & k : boundary<Tag>(m.cells[(size_t)u], (int)Topo<Tag>::tdim - 1)) for (int w : f[sorted(k)]) if (comp[(size_t)w] < 0) { comp[(size_t)w] = n; st.push_back(w); } } ++n; } return comp; }
template<class Tag> int seeds_ok(RefMesh const & m, std::vector<int> const & cells, std::vector<Pt> const & pts, std::string const & what) { std::vector<int> comp = components<Tag>(m, cells); int n = 0; for (int k : comp) n = std::max(n, k + 1); VH_EQ((int)pts.size(), n, what + ": seed points"); std::set<int> seen; for (auto const & p : pts) { int hit = -1; for (int i : cells) if (in_cell<Tag>(m, m.cells[(size_t)i], p, -1e-9L)) { int k = comp[(size_t)i]; if (hit < 0 || !seen.count(k)) hit = k; } VH_CHECK(hit >= 0, what << ": a seed point lies in none of the cells"); VH_CHECK(seen.insert(hit).second, what << ": two seed points in one component"); } return n; }
template<class M> void run_seed(Src & s, Case & c) { typedef typename Types<M>::CellTag T; typedef typename Types<M>::Point P; RefMesh m = gen<T>(s, (int)P::dim); describe(c.desc, m); M mesh; build(mesh, m); std::vector<int> all; for (size_t i = 0; i < m.cells.size(); ++i) all.push_back((int)i);
  std::vector<P> pts; viennagrid::extract_seed_points(mesh, pts); std::vector<Pt> q; for (auto const & p : pts) q.push_back(from_point(p)); int n = seeds_ok<T>(m, all, q, "mesh"); if (n > 1) c.label("not connected"); c.hit(m.cells.size() > 1);
  typename viennagrid::result_of::segmentation<M>::type sg(mesh); SegGen g = make_segments(s, c, m, mesh, sg); std::vector<std::pair<P, int> > sp; P dummy; for (size_t d = 0; d < (size_t)P::dim; ++d) dummy[d] = 77; bool pre = s.chance(30); if (pre) sp.push_back(std::make_pair(dummy, -5)); viennagrid::extract_seed_points(mesh, sg, sp);
  if (pre) { VH_CHECK(!sp.empty() && sp[0].second == -5 && sp[0].first[0] == 77, "earlier seed points are gone"); sp.erase(sp.begin()); } std::map<int, std::vector<Pt> > by; for (auto const & x : sp) by[x.second].push_back(from_point(x.first));
  if (g.ids.empty()) { for (auto const & b : by) VH_EQ(b.first, 0, "label without segments"); seeds_ok<T>(m, all, by[0], "mesh without segments"); } else { for (auto const & b : by) VH_CHECK(std::count(g.ids.begin(), g.ids.end(), b.first), "seed point labelled " << b.first); for (size_t k = 0; k < g.ids.size(); ++k) { int z = seeds_ok<T>(m, g.cells[k], by[g.ids[k]], "segment " + std::to_string(g.ids[k])); if (z > 1) c.label("segment not connected"); std::vector<P> one; viennagrid::extract_seed_points(sg.get_make_segment(g.ids[k]), one); std::vector<Pt> o; for (auto const & p : one) o.push_back(from_point(p)); seeds_ok<T>(m, g.cells[k], o, "single segment"); } } }
