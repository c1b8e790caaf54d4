// Histories with deletions (and restored copies) of meshes without segments.
#ifndef DELHIST_HPP
#define DELHIST_HPP
#include "seghist.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#include <memory>
namespace delhist {
using namespace seghist;

template<class M> struct Del {
  typedef Types<M> T; typedef typename T::CellTag CT; enum { TD = Topo<CT>::tdim, SIMPLEX = (int)Topo<CT>::nv == (int)Topo<CT>::tdim + 1 };
  M mesh; std::map<int, Pt> verts; std::map<int, Cell> cells; std::map<Key, int> low[3];      // edges, faces: key -> id
  typename T::VH vhandle(int id) { typedef typename viennagrid::result_of::element_range<M, viennagrid::vertex_tag>::type R; R r(mesh); typename viennagrid::result_of::iterator<R>::type it = viennagrid::find(mesh, typename T::Vertex::id_type(id)); VH_CHECK(it != r.end(), "vertex " << id << " cannot be found"); return it.handle(); }
  static bool subset(Key const & a, Key const & b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }
  int vertex(vh::Src & s) { Pt p; for (int d = 0; d < (int)T::Point::dim; ++d) p.push_back(s.real()); auto h = viennagrid::make_vertex(mesh, to_point<typename T::Point>(p)); int id = (int)viennagrid::dereference_handle(mesh, h).id().get(); VH_CHECK(!verts.count(id), "new vertex got the id " << id << " of an existing one"); verts[id] = p; return id; }
  bool has_cell(Key const & k) const { for (auto const & q : cells) if (sorted(q.second) == k) return true; return false; }
  int insert_cell(Cell const & q) {
    std::vector<typename T::VH> h; for (int v : q) h.push_back(vhandle(v)); auto ch = viennagrid::make_cell(mesh, h.begin(), h.end()); int id = (int)viennagrid::dereference_handle(mesh, ch).id().get(); VH_CHECK(!cells.count(id), "new cell got the id " << id << " of an existing one"); cells[id] = q;
    for (int d = 1; d < (int)TD; ++d) for (auto const & b : boundary<CT>(q, d)) if (!low[d].count(sorted(b))) low[d][sorted(b)] = -1; return id;
  }
  template<class ET> void insert_low(Cell const & q, int d) { std::vector<typename T::VH> h; for (int v : q) h.push_back(vhandle(v)); viennagrid::make_element<ET>(mesh, h.begin(), h.end()); Key k = sorted(q); if (!low[d].count(k)) low[d][k] = -1; if (d == 2) for (size_t i = 0; i < 3; ++i) for (size_t j = i + 1; j < 3; ++j) if (!low[1].count(Key{k[i], k[j]})) low[1][Key{k[i], k[j]}] = -1; }
  void model_erase(int dim, Key const & k) {
    for (int d = std::max(dim, 1); d < (int)TD; ++d) for (auto it = low[d].begin(); it != low[d].end();) if (subset(k, it->first)) low[d].erase(it++); else ++it;
    for (auto it = cells.begin(); it != cells.end();) if (subset(k, sorted(it->second))) cells.erase(it++); else ++it;
    if (dim == 0) verts.erase(k[0]);
  }
  template<int D> std::vector<Key> keys() const { std::vector<Key> r; if (D == 0) for (auto const & v : verts) r.push_back(Key(1, v.first)); else if (D == (int)TD) for (auto const & q : cells) r.push_back(sorted(q.second)); else for (auto const & l : low[D < 3 ? D : 0]) r.push_back(l.first); return r; }
  // erase some elements of dimension D at once
  template<int D> int erase(vh::Src & s, std::ostream & o) {
    typedef typename TagOf<CT, D>::type ET; std::vector<Key> ks = keys<D>(); if (ks.empty()) return 0; int n = s.chance(60) ? 1 : (int)s.range(1, 4); std::set<Key> pick; for (int i = 0; i < n; ++i) pick.insert(ks[(size_t)s.draw(ks.size())]);
    typedef typename viennagrid::result_of::element_range<M, ET>::type R; R r(mesh);
    if (pick.size() == 1 && s.chance(70)) { for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) if (sorted(vids(*it)) == *pick.begin()) { viennagrid::erase_element(mesh, it.handle()); goto done; } vh::fail("element to erase not found"); }
    else { typedef typename viennagrid::result_of::mesh_view<M>::type V; V v = viennagrid::make_view(mesh); size_t found = 0; for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) if (pick.count(sorted(vids(*it)))) { viennagrid::mark_erase_elements(mesh, v, it.handle()); ++found; } VH_CHECK(found == pick.size(), "element to erase not found"); viennagrid::erase_elements(mesh, v); }
    done: for (auto const & k : pick) { model_erase(D, k); o << "E" << str(k) << " "; } return (int)pick.size();
  }
  template<int D> void check_low() {
    typedef typename TagOf<CT, D>::type ET; std::map<Key, void const *> st = walk<ET>(mesh, "mesh"); KeySet exp; for (auto const & l : low[D]) exp.insert(l.first); compare(st, exp, "element");
    std::set<int> ids; for (auto & e : viennagrid::elements<ET>(mesh)) { int id = (int)e.id().get(); Key k = sorted(vids(e)); VH_CHECK(ids.insert(id).second, "two elements with id " << id); int & m = low[D][k]; if (m < 0) m = id; VH_CHECK(m == id, "id of element " << str(k) << " changed from " << m << " to " << id); VH_CHECK(&*viennagrid::find(mesh, e.id()) == &e, "find by id returns another element"); }
    check_sharing<CT, ET>(mesh, st, "element of a cell"); std::map<Key, void const *> vs = walk<viennagrid::vertex_tag>(mesh, "mesh"); check_sharing<ET, viennagrid::vertex_tag>(mesh, vs, "vertex of an element");
  }
  template<int D, bool B> struct Low { static void run(Del & d) { d.template check_low<D>(); if (D == 2) check_sharing<typename TagOf<CT, (D == 2 ? D : (int)TD)>::type, viennagrid::line_tag>(d.mesh, walk<viennagrid::line_tag>(d.mesh, "mesh"), "edge of a face"); } };
  template<int D> struct Low<D, false> { static void run(Del &) {} };
  void check() {
    typedef typename viennagrid::result_of::const_vertex_range<M>::type VR; VR vr(mesh); VH_EQ(vr.size(), verts.size(), "number of vertices"); std::set<int> ids;
    for (auto it = vr.begin(); it != vr.end(); ++it) { int id = (int)(*it).id().get(); VH_CHECK(verts.count(id) && ids.insert(id).second, "vertex id " << id << " unexpected"); VH_CHECK(from_point(viennagrid::point(*it)) == verts[id], "coordinates of vertex " << id << " changed"); VH_CHECK(&*viennagrid::find(mesh, (*it).id()) == &*it, "find vertex"); }
    std::set<int> cids; auto cr = viennagrid::cells(mesh); VH_EQ(cr.size(), cells.size(), "number of cells"); for (auto & e : cr) { int id = (int)e.id().get(); VH_CHECK(cells.count(id) && cids.insert(id).second, "cell id " << id << " unexpected"); VH_CHECK(vids(e) == cells[id], "vertices of cell " << id << " changed to " << str(vids(e))); VH_CHECK(&*viennagrid::find(mesh, e.id()) == &e, "find cell"); }
    check_sharing<CT, viennagrid::vertex_tag>(mesh, walk<viennagrid::vertex_tag>(mesh, "mesh"), "vertex of a cell");
    Low<1, ((int)TD > 1)>::run(*this); Low<2, ((int)TD > 2)>::run(*this);
  }
  void queries(vh::Src & s) {
    typedef typename TagOf<CT, (int)TD - 1>::type FT; std::map<Key, int> cnt; std::map<Key, KeySet> vc; for (auto const & q : cells) { for (auto const & f : boundary<CT>(q.second, (int)TD - 1)) ++cnt[sorted(f)]; for (int v : q.second) vc[Key(1, v)].insert(sorted(q.second)); }
    if (s.chance(50)) { for (auto & e : viennagrid::elements<FT>(mesh)) { Key k = sorted(vids(e)); VH_CHECK(viennagrid::is_boundary(mesh, e) == (cnt[k] % 2 == 1), "is_boundary of facet " << str(k) << " wrong"); } }
    else { typedef typename viennagrid::result_of::element_range<M, viennagrid::vertex_tag>::type R; R r(mesh); for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { KeySet got; for (auto & q : viennagrid::coboundary_elements<viennagrid::vertex_tag, CT>(mesh, it.handle())) got.insert(sorted(vids(q))); Key k(1, (int)(*it).id().get()); VH_CHECK(got == vc[k], "cells around vertex " << k[0] << " wrong"); } }
  }
};
template<int D> struct EraseD { template<class X> static int run(X & x, vh::Src & s, int d, std::ostream & o) { return d >= D ? x.template erase<D>(s, o) : EraseD<D - 1>::run(x, s, d, o); } };
template<> struct EraseD<-1> { template<class X> static int run(X &, vh::Src &, int, std::ostream &) { return 0; } };

template<bool S, int TD> struct LowIns { template<class X> static void run(X &, vh::Src &, std::ostream &) {} };
template<int TD> struct LowIns<true, TD> { template<class X> static void run(X & x, vh::Src & s, std::ostream & o) {
  size_t nv = TD == 3 && s.chance(50) ? 3 : 2; if (TD < 2 || x.verts.size() < nv) return; std::vector<int> all; for (auto const & v : x.verts) all.push_back(v.first); s.shuffle(all); Cell q(all.begin(), all.begin() + (long)nv); o << "L" << str(q) << " "; if (nv == 3) x.template insert_low<typename TagOf<typename X::CT, (TD > 2 ? 2 : 1)>::type>(q, 2); else x.template insert_low<typename TagOf<typename X::CT, 1>::type>(q, 1); } };
template<int TD> struct LowInsSel { template<class X> static void run(X & x, vh::Src & s, std::ostream & o) { LowIns<X::SIMPLEX != 0 && (TD >= 2), TD>::run(x, s, o); } };


// what the query checks of C04 and C05 need of a history: mesh, elements, containment
template<class M_> struct DelView {
  typedef M_ M; typedef Del<M> D; typedef typename D::CT CT; enum { TD = D::TD }; D & d; M & mesh; explicit DelView(D & x) : d(x), mesh(x.mesh) {}
  KeySet keys(HostM const &, int k) const { KeySet r; if (k == 0) for (auto const & v : d.verts) r.insert(Key(1, v.first)); else if (k == (int)TD) for (auto const & q : d.cells) r.insert(sorted(q.second)); else for (auto const & l : d.low[k]) r.insert(l.first); return r; }
  KeySet bnd(Key const & k, int, int dim) const { KeySet r; if (dim == 0) { for (int v : k) r.insert(Key(1, v)); return r; } for (auto const & l : d.low[dim]) if (D::subset(l.first, k)) r.insert(l.first); return r; }
  std::map<Key, int> facet_count(HostM const &) const { std::map<Key, int> n; for (auto const & q : d.cells) for (auto const & f : boundary<CT>(q.second, (int)TD - 1)) ++n[sorted(f)]; return n; }
};
template<class M> struct Snap { M mesh; std::map<int, Pt> verts; std::map<int, Cell> cells; std::map<Key, int> low[3]; explicit Snap(Del<M> const & d) : mesh(d.mesh), verts(d.verts), cells(d.cells) { for (int i = 0; i < 3; ++i) low[i] = d.low[i]; }
  void restore(Del<M> & d) const { d.mesh = mesh; d.verts = verts; d.cells = cells; for (int i = 0; i < 3; ++i) d.low[i] = low[i]; } };
// one history; after(i) is called between the operations
template<class M, class F> void history(vh::Src & s, vh::Case & c, Del<M> & m, bool copies, int erase_pct, F after_op, int & erased, int & after) {
  typedef Del<M> D; const size_t nv = Topo<typename D::CT>::nv; std::vector<Cell> todo; bool gridonly = !D::SIMPLEX || s.chance(40); std::vector<std::unique_ptr<Snap<M> > > snaps;
  if (gridonly) { GridOpt o; o.maxn = (int)D::TD == 3 ? 2 : 4; RefMesh r = grid<typename D::CT>(s, Types<M>::Point::dim, o); auto h = add_vertices(m.mesh, r); for (size_t i = 0; i < h.size(); ++i) m.verts[(int)i] = r.pts[i]; todo = r.cells; size_t keep = (size_t)s.draw(todo.size() + 1); while (todo.size() > keep) { m.insert_cell(todo.back()); todo.pop_back(); } }
  long ops = s.size(2, 24);
  for (long i = 0; i < ops; ++i) {
    if (copies && s.chance(12)) { if (snaps.empty() || s.chance(50)) { snaps.emplace_back(new Snap<M>(m)); c.desc << "save "; } else { size_t k = (size_t)s.draw(snaps.size()); snaps[k]->restore(m); c.desc << "restore" << k << " "; } }
    else if (s.chance(erase_pct)) { int n = EraseD<D::TD>::run(m, s, (int)s.draw(D::TD + 1), c.desc); erased += n; }
    else if (s.chance(20)) m.queries(s);
    else if (!gridonly && s.chance(20)) LowInsSel<D::TD>::run(m, s, c.desc);
    else if (gridonly) { if (!todo.empty()) { Cell q = todo.back(); todo.pop_back(); bool ok = true; for (int v : q) if (!m.verts.count(v)) ok = false; if (ok) { m.insert_cell(q); c.desc << "C" << str(q) << " "; if (erased) ++after; } } else if (s.chance(30)) m.vertex(s); }
    else { Cell q; std::vector<int> all; for (auto const & v : m.verts) all.push_back(v.first);
      if (!m.cells.empty() && s.chance(60)) { auto it = m.cells.begin(); std::advance(it, (long)s.draw(m.cells.size())); Tab f = boundary<typename D::CT>(it->second, (int)D::TD - 1); q = f[(size_t)s.draw(f.size())]; s.shuffle(q); }
      while (q.size() < nv) { int v = -1; if (all.size() >= nv && s.chance(60)) { v = all[(size_t)s.draw(all.size())]; if (std::find(q.begin(), q.end(), v) != q.end()) v = -1; } if (v < 0) v = m.vertex(s); q.push_back(v); }
      if (!m.has_cell(sorted(q))) { m.insert_cell(q); c.desc << "C" << str(q) << " "; if (erased) ++after; } }
    after_op(i);
  }
}
} // namespace delhist
#endif
