// Model-based construction histories of meshes and full topology comparison.
#ifndef TOPO_HPP
#define TOPO_HPP
#include "meshgen.hpp"
namespace topo {
using namespace mg;
typedef std::set<std::vector<int> > KeySet;

template<class M> struct Model {
  typedef typename Types<M>::CellTag Tag;
  std::vector<Pt> pts; std::vector<Cell> cells; KeySet cellkeys;
  KeySet direct[3];                      // directly inserted lower dimensional elements (sorted)
  std::vector<typename Types<M>::VH> vh; // handles by vertex index (= id)
  std::vector<typename Types<M>::CH> ch;
  KeySet expected(int d) const {
    KeySet k(direct[d]);
    for (auto const & q : cells) for (auto const & b : boundary<Tag>(q, d)) k.insert(sorted(b));
    if (d == 1 && Topo<Tag>::tdim == 3) for (auto const & t : direct[2]) { // edges of directly inserted faces (triangles)
      if (t.size() == 3) { k.insert(std::vector<int>{t[0], t[1]}); k.insert(std::vector<int>{t[0], t[2]}); k.insert(std::vector<int>{t[1], t[2]}); }
    }
    return k;
  }
  template<class OS> void describe(OS & os) const {
    os << pts.size() << " vertices; cells"; for (auto const & q : cells) put(os, q);
    for (int d = 1; d < 3; ++d) if (!direct[d].empty()) { os << "; direct" << d; for (auto const & k : direct[d]) put(os, k); }
  }
};

template<class M> void op_vertex(vh::Src & s, M & mesh, Model<M> & m) {
  Pt p; for (int d = 0; d < (int)Types<M>::Point::dim; ++d) p.push_back(s.real());
  m.vh.push_back(viennagrid::make_vertex(mesh, to_point<typename Types<M>::Point>(p))); m.pts.push_back(p);
}
// choose the vertices of a new cell: random, or sharing a boundary element with an existing cell
template<class M> bool choose_cell(vh::Src & s, M & mesh, Model<M> & m, Cell & q) {
  typedef typename Types<M>::CellTag Tag; const size_t nv = Topo<Tag>::nv;
  q.clear();
  if (!m.cells.empty() && s.chance(65)) {
    Cell const & o = m.cells[(size_t)s.draw(m.cells.size())];
    size_t share = 1 + (size_t)s.draw(nv - 1);
    Cell t(o); s.shuffle(t); t.resize(share);
    if (s.chance(60) && Topo<Tag>::tdim >= 2) { Tab f = boundary<Tag>(o, Topo<Tag>::tdim - 1); t = f[(size_t)s.draw(f.size())]; if (s.chance(70)) s.shuffle(t); }
    q = t;
  }
  while (q.size() < nv) {
    bool fresh = m.pts.size() < nv || s.chance(45);
    if (fresh) { op_vertex(s, mesh, m); q.push_back((int)m.pts.size() - 1); }
    else {
      int v = (int)s.draw(m.pts.size());
      if (std::find(q.begin(), q.end(), v) == q.end()) q.push_back(v);
      else { op_vertex(s, mesh, m); q.push_back((int)m.pts.size() - 1); }
    }
  }
  if (s.chance(50)) s.shuffle(q);
  if (!m.cellkeys.insert(sorted(q)).second) return false;   // duplicates of whole cells are out of scope
  return true;
}
// the functions creating an element of a given type from its vertices
template<class Tag> struct MakeBy;
template<> struct MakeBy<viennagrid::line_tag> { template<class T, class H> static typename viennagrid::result_of::handle<T, viennagrid::line_tag>::type make(T & t, std::vector<H> const & h, bool alt) { return alt ? viennagrid::make_edge(t, h[0], h[1]) : viennagrid::make_line(t, h[0], h[1]); } };
template<> struct MakeBy<viennagrid::triangle_tag> { template<class T, class H> static typename viennagrid::result_of::handle<T, viennagrid::triangle_tag>::type make(T & t, std::vector<H> const & h, bool) { return viennagrid::make_triangle(t, h[0], h[1], h[2]); } };
template<> struct MakeBy<viennagrid::quadrilateral_tag> { template<class T, class H> static typename viennagrid::result_of::handle<T, viennagrid::quadrilateral_tag>::type make(T & t, std::vector<H> const & h, bool) { return viennagrid::make_quadrilateral(t, h[0], h[1], h[2], h[3]); } };
template<> struct MakeBy<viennagrid::tetrahedron_tag> { template<class T, class H> static typename viennagrid::result_of::handle<T, viennagrid::tetrahedron_tag>::type make(T & t, std::vector<H> const & h, bool) { return viennagrid::make_tetrahedron(t, h[0], h[1], h[2], h[3]); } };
template<> struct MakeBy<viennagrid::hexahedron_tag> { template<class T, class H> static typename viennagrid::result_of::handle<T, viennagrid::hexahedron_tag>::type make(T & t, std::vector<H> const & h, bool) { return viennagrid::make_hexahedron(t, h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]); } };
template<class M, class Target> void op_cell(M & mesh, Target & target, Model<M> & m, Cell const & q) {
  std::vector<typename Types<M>::VH> h; for (int v : q) h.push_back(m.vh[(size_t)v]);
  int way = (q[0] + q.back() + (int)m.cells.size()) % 3; typedef typename Types<M>::CellTag CT;
  m.ch.push_back(way == 0 ? viennagrid::make_cell(target, h.begin(), h.end()) : way == 1 ? MakeBy<CT>::make(target, h, q[0] % 2) : viennagrid::make_element<CT>(target, h.begin(), h.end())); m.cells.push_back(q);
}
template<class Tag2, class M> void op_direct(vh::Src & s, M & mesh, Model<M> & m, size_t nv, int d) {
  Cell q; if (m.pts.size() < nv) return;
  for (int tries = 0; q.size() < nv && tries < 20; ++tries) { int v = (int)s.draw(m.pts.size()); if (std::find(q.begin(), q.end(), v) == q.end()) q.push_back(v); }
  if (q.size() < nv) return;
  std::vector<typename Types<M>::VH> h; for (int v : q) h.push_back(m.vh[(size_t)v]);
  typename viennagrid::result_of::handle<M, Tag2>::type r; if (s.chance(50)) r = MakeBy<Tag2>::make(mesh, h, s.chance(50)); else r = viennagrid::make_element<Tag2>(mesh, h.begin(), h.end());
  VH_CHECK(sorted(vids(viennagrid::dereference_handle(mesh, r))) == sorted(q), "creating element " << str(q) << " returns a handle to " << str(vids(viennagrid::dereference_handle(mesh, r)))); m.direct[d].insert(sorted(q));
}

// generic range walk: key -> element address; checks uniqueness and size()
template<class ETag, class Host> std::map<std::vector<int>, void const *> walk(Host const & host, char const * what) {
  typedef typename viennagrid::result_of::const_element_range<Host, ETag>::type R;
  R r(host); std::map<std::vector<int>, void const *> out; size_t n = 0; std::set<void const *> addr; std::vector<void const *> order;
  for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it, ++n) {
    std::vector<int> k = sorted(vids(*it));
    VH_CHECK(out.insert(std::make_pair(k, (void const *)&(*it))).second, what << ": element " << str(k) << " stored twice");
    VH_CHECK(addr.insert(&(*it)).second, what << ": element visited twice"); order.push_back(&(*it));
  }
  typename viennagrid::result_of::iterator<R>::type p = r.begin();            // the same elements by postfix steps, backwards, and by position
  for (size_t i = 0; i < n; ++i) { void const * a = &*(p++); VH_CHECK(a == order[i], what << ": postfix increment visits another element at position " << i); }
  VH_CHECK(p == r.end(), what << ": postfix traversal does not end at end()");
  for (size_t i = n; i > 0; --i) { if (i % 2) --p; else p--; VH_CHECK((void const *)&*p == order[i - 1], what << ": backward traversal visits another element at position " << i - 1); }
  if (n) { VH_CHECK((void const *)&r[n / 2] == order[n / 2] && (void const *)&r[n - 1] == order[n - 1], what << ": access by position"); VH_CHECK(r.empty() == false, what << ": empty() of a non-empty range"); } else VH_CHECK(r.empty(), what << ": empty() of an empty range");
  VH_CHECK(n == r.size(), what << ": range size " << r.size() << " but visited " << n);
  VH_CHECK(n == viennagrid::elements<ETag>(host).size(), what << ": size mismatch");
  return out;
}
inline void compare(std::map<std::vector<int>, void const *> const & got, KeySet const & exp, char const * what) {
  for (auto const & k : exp) VH_CHECK(got.count(k), what << " " << str(k) << " is missing");
  for (auto const & g : got) VH_CHECK(exp.count(g.first), what << " " << str(g.first) << " should not exist");
}

template<class M> std::map<std::vector<int>, void const *> check_vertices_cells(M const & mesh, Model<M> const & m) {
  typedef typename viennagrid::result_of::const_vertex_range<M>::type VR; VR vr(mesh);
  VH_EQ(vr.size(), m.pts.size(), "number of vertices");
  size_t n = 0; std::set<int> ids; std::map<std::vector<int>, void const *> va;
  for (typename viennagrid::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it, ++n) {
    int id = (int)(*it).id().get(); VH_CHECK(id >= 0 && id < (int)m.pts.size() && ids.insert(id).second, "bad or repeated vertex id " << id);
    Pt p = from_point(viennagrid::point(mesh, *it)); VH_CHECK(p == m.pts[(size_t)id], "coordinates of vertex " << id << " changed");
    Pt p2 = from_point(viennagrid::point(*it)); VH_CHECK(p2 == p, "point accessors disagree");
    VH_CHECK(&viennagrid::dereference_handle(mesh, m.vh[(size_t)id]) == &(*it), "vertex handle " << id << " does not dereference to the vertex");
    va[std::vector<int>(1, id)] = &(*it);
  }
  VH_EQ(n, m.pts.size(), "visited vertices");
  typedef typename viennagrid::result_of::const_cell_range<M>::type CR; CR cr(mesh);
  VH_EQ(cr.size(), m.cells.size(), "number of cells"); n = 0; std::multiset<Cell> got, exp(m.cells.begin(), m.cells.end());
  for (typename viennagrid::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it, ++n) got.insert(vids(*it));
  VH_CHECK(got == exp, "cells differ from the inserted ones");
  for (size_t i = 0; i < m.ch.size(); ++i) VH_CHECK(vids(viennagrid::dereference_handle(mesh, m.ch[i])) == m.cells[i], "cell handle " << i << " refers to another cell");
  return va;
}
// every boundary element of type ETag reached from hosts of type HTag is the stored one
template<class HTag, class ETag, class M> void check_sharing(M const & mesh, std::map<std::vector<int>, void const *> const & stored, char const * what) {
  typedef typename viennagrid::result_of::const_element_range<M, HTag>::type HR; HR hr(mesh);
  for (typename viennagrid::result_of::iterator<HR>::type it = hr.begin(); it != hr.end(); ++it) {
    typedef typename viennagrid::result_of::element<M, HTag>::type Host;
    std::map<std::vector<int>, void const *> w = walk<ETag, Host>(*it, what);
    for (auto const & e : w) { auto f = stored.find(e.first); VH_CHECK(f != stored.end(), what << ": " << str(e.first) << " not in mesh"); VH_CHECK(f->second == e.second, what << ": " << str(e.first) << " is a different object than the one in the mesh"); }
  }
}
// for_each visits every element of every type exactly once
struct CountVisits { std::map<void const *, int> * seen; std::map<int, size_t> * dims; template<class E> void operator()(E & e) const { ++(*seen)[&e]; ++(*dims)[int(E::tag::dim)]; } };
template<class Host> void check_for_each(Host & host, std::vector<size_t> const & counts) {
  std::map<void const *, int> seen; std::map<int, size_t> dims; CountVisits f = { &seen, &dims }; viennagrid::for_each(host, f);
  for (auto const & x : seen) VH_CHECK(x.second == 1, "for_each visits an element " << x.second << " times");
  for (size_t d = 0; d < counts.size(); ++d) VH_EQ(dims[(int)d], counts[d], "elements of dimension " << d << " visited by for_each");
  std::map<void const *, int> s2; std::map<int, size_t> d2; CountVisits f2 = { &s2, &d2 }; viennagrid::for_each<1>(host, f2); VH_EQ(d2[1], counts[1], "lines visited by for_each<1>"); VH_EQ(d2.size(), (size_t)(counts[1] ? 1 : d2.size()), "dimensions visited by for_each<1>");
  for (auto const & x : s2) VH_CHECK(x.second == 1 && seen.count(x.first), "for_each<1> visits a wrong element or one twice");
}
} // namespace topo
#endif
