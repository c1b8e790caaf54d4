#include "topo.hpp"
using namespace topo;
// every boundary element of type ETag of the host: i-th one spanned by ref[i]; local vertex order as in ref[i]
template<class ETag, class Host> void check_host(Host & host, Tab const & ref, char const * what) {
  Host const & chost = host;
  typedef typename viennagrid::result_of::element_range<Host, ETag>::type R; R r(host); 
  typedef typename viennagrid::result_of::const_element_range<Host, ETag>::type CR; CR cr(chost);
  VH_EQ(r.size(), ref.size(), what << ": number"); VH_EQ(cr.size(), ref.size(), what << ": number (const)");
  size_t i = 0; typename viennagrid::result_of::iterator<CR>::type cit = cr.begin();
  for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it, ++cit, ++i) {
    VH_CHECK(&*it == &*cit, what << ": const and non-const ranges differ");
    VH_CHECK(&r[i] == &*it, what << ": operator[] " << i << " is a different element");
    VH_CHECK(sorted(vids(*it)) == sorted(ref[i]), what << " " << i << " is spanned by " << str(vids(*it)) << " instead of " << str(ref[i]) << " in " << str(vids(host)));
    std::vector<int> loc, cloc, dloc;
    for (size_t j = 0; j < ref[i].size(); ++j) {
      loc.push_back((int)viennagrid::dereference_handle(host, viennagrid::local_vertex(host, it.handle(), j)).id().get());
      dloc.push_back((int)viennagrid::dereference_handle(host, viennagrid::local_vertex(host, r.handle_at(i), j)).id().get());
    }
    VH_CHECK(loc == ref[i], what << " " << i << " of " << str(vids(host)) << " has local vertices " << str(loc) << " instead of " << str(ref[i]) << " (stored as " << str(vids(*it)) << ")");
    VH_CHECK(dloc == ref[i], what << " " << i << ": local vertices through handle_at differ");
  }
  VH_CHECK(cit == cr.end(), what << ": const range too long");
}
template<class Tag> Tab refs(std::vector<int> const & q, int d) { return boundary<Tag>(q, d); }
template<class Host> void check_vertices(Host const & h, Cell const & q, char const * what) {
  VH_CHECK(vids(h) == q, what << " vertices " << str(vids(h)) << " instead of " << str(q));
  for (size_t i = 0; i < q.size(); ++i) VH_EQ((int)viennagrid::vertices(h)[i].id().get(), q[i], what << " vertices()[i]");
}
template<class M, int TD> struct HostCheck;
template<class M> struct HostCheck<M, 2> { static size_t run(M & mesh, Model<M> const & m) {
  typedef typename Types<M>::CellTag T; size_t flipped = 0;
  for (size_t i = 0; i < m.cells.size(); ++i) { auto & e = viennagrid::dereference_handle(mesh, m.ch[i]); check_vertices(e, m.cells[i], "cell"); check_host<viennagrid::line_tag>(e, refs<T>(m.cells[i], 1), "edge"); 
    Tab r = refs<T>(m.cells[i], 1); for (size_t k = 0; k < r.size(); ++k) if (vids(viennagrid::elements<viennagrid::line_tag>(e)[k]) != r[k]) ++flipped; }
  return flipped; } };
template<class M> struct HostCheck<M, 3> { static size_t run(M & mesh, Model<M> const & m) {
  typedef typename Types<M>::CellTag T; typedef typename T::facet_tag F; size_t flipped = 0;
  for (size_t i = 0; i < m.cells.size(); ++i) { auto & e = viennagrid::dereference_handle(mesh, m.ch[i]); check_vertices(e, m.cells[i], "cell");
    check_host<viennagrid::line_tag>(e, refs<T>(m.cells[i], 1), "edge"); check_host<F>(e, refs<T>(m.cells[i], 2), "face");
    Tab r = refs<T>(m.cells[i], 2); for (size_t k = 0; k < r.size(); ++k) if (vids(viennagrid::elements<F>(e)[k]) != r[k]) ++flipped; }
  typedef typename viennagrid::result_of::element_range<M, F>::type FR; FR fr(mesh);
  for (typename viennagrid::result_of::iterator<FR>::type it = fr.begin(); it != fr.end(); ++it) check_host<viennagrid::line_tag>(*it, refs<F>(vids(*it), 1), "edge of face");
  return flipped; } };

template<class M, int TD> struct Face { static void run(vh::Src &, M &, Model<M> &) {} };
template<class M> struct Face<M, 3> { static void run(vh::Src & s, M & mesh, Model<M> & m) { typedef typename Types<M>::CellTag::facet_tag F; op_direct<F>(s, mesh, m, Topo<F>::nv, 2); } };

template<class M> void orient(vh::Src & s, vh::Case & c) {
  typedef typename Types<M>::CellTag T; const int TD = Topo<T>::tdim;
  M mesh; Model<M> m;
  typedef typename viennagrid::result_of::segmentation<M>::type Sgn; typedef typename viennagrid::result_of::segment_handle<Sgn>::type SH; Sgn sgn(mesh); SH seg = sgn.make_segment();
  bool useseg = s.chance(25);
  if (s.chance(50)) { GridOpt o; o.maxn = TD == 3 ? 2 : 4; RefMesh r = grid<T>(s, Types<M>::Point::dim, o); m.pts = r.pts; m.vh = add_vertices(mesh, r);
    for (auto const & q : r.cells) { m.cellkeys.insert(sorted(q)); if (useseg && s.chance(50)) op_cell(mesh, seg, m, q); else op_cell(mesh, mesh, m, q); } }
  long ops = s.size(m.cells.empty() ? 1 : 0, 16);
  for (long i = 0; i < ops; ++i) {
    if (s.chance(10) && m.pts.size() >= 2) { op_direct<viennagrid::line_tag>(s, mesh, m, 2, 1); continue; }
    if (s.chance(8) && TD == 3) { // a face that exists before its cells, in an arbitrary vertex order
      Face<M, TD>::run(s, mesh, m); continue; }
    Cell q; if (!choose_cell(s, mesh, m, q)) continue;
    if (useseg && s.chance(50)) op_cell(mesh, seg, m, q); else op_cell(mesh, mesh, m, q);
  }
  m.describe(c.desc);
  size_t fl = HostCheck<M, TD>::run(mesh, m);
  c.hit(fl > 0);       // some boundary element is stored in another vertex order than its host's
}
