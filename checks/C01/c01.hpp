#include "topo.hpp"
using namespace topo;

template<class M, int TD, bool FULL> struct Verify;
template<class M> struct Verify<M, 1, true> { static void run(M const & mesh, Model<M> const & m) {
  auto va = check_vertices_cells(mesh, m); check_sharing<viennagrid::line_tag, viennagrid::vertex_tag>(mesh, va, "vertex of line"); } };
template<class M> struct Verify<M, 2, true> { static void run(M const & mesh, Model<M> const & m) {
  typedef typename Types<M>::CellTag T;
  auto va = check_vertices_cells(mesh, m);
  auto ed = walk<viennagrid::line_tag>(mesh, "edge"); compare(ed, m.expected(1), "edge");
  check_sharing<viennagrid::line_tag, viennagrid::vertex_tag>(mesh, va, "vertex of edge");
  check_sharing<T, viennagrid::vertex_tag>(mesh, va, "vertex of cell");
  check_sharing<T, viennagrid::line_tag>(mesh, ed, "edge of cell"); } };
template<class M> struct Verify<M, 3, true> { static void run(M const & mesh, Model<M> const & m) {
  typedef typename Types<M>::CellTag T; typedef typename T::facet_tag F;
  auto va = check_vertices_cells(mesh, m);
  auto ed = walk<viennagrid::line_tag>(mesh, "edge"); compare(ed, m.expected(1), "edge");
  auto fa = walk<F>(mesh, "face"); compare(fa, m.expected(2), "face");
  check_sharing<T, viennagrid::vertex_tag>(mesh, va, "vertex of cell");
  check_sharing<F, viennagrid::vertex_tag>(mesh, va, "vertex of face");
  check_sharing<viennagrid::line_tag, viennagrid::vertex_tag>(mesh, va, "vertex of edge");
  check_sharing<T, viennagrid::line_tag>(mesh, ed, "edge of cell");
  check_sharing<T, F>(mesh, fa, "face of cell");
  check_sharing<F, viennagrid::line_tag>(mesh, ed, "edge of face"); } };
template<class M, int TD> struct Verify<M, TD, false> { static void run(M const & mesh, Model<M> const & m) {
  auto va = check_vertices_cells(mesh, m); check_sharing<typename Types<M>::CellTag, viennagrid::vertex_tag>(mesh, va, "vertex of cell"); } };

template<class M, int TD, bool FULL> struct Direct { static void run(vh::Src &, M &, Model<M> &) {} };
template<class M> struct Direct<M, 2, true> { static void run(vh::Src & s, M & mesh, Model<M> & m) { op_direct<viennagrid::line_tag>(s, mesh, m, 2, 1); } };
template<class M> struct DirectFace { static void run(vh::Src & s, M & mesh, Model<M> & m) { op_direct<viennagrid::line_tag>(s, mesh, m, 2, 1); } };
template<> struct DirectFace<viennagrid::tetrahedral_3d_mesh> { typedef viennagrid::tetrahedral_3d_mesh M; static void run(vh::Src & s, M & mesh, Model<M> & m) { if (s.chance(50)) op_direct<viennagrid::triangle_tag>(s, mesh, m, 3, 2); else op_direct<viennagrid::line_tag>(s, mesh, m, 2, 1); } };
template<class M> struct Direct<M, 3, true> { static void run(vh::Src & s, M & mesh, Model<M> & m) { DirectFace<M>::run(s, mesh, m); } };

// segment ranges: exactly the cells created in / added to the segment and all their boundary elements
template<class ETag, class Seg> void check_seg_dim(Seg const & seg, KeySet const & exp, char const * what) { compare(walk<ETag>(seg, what), exp, what); }
template<class M, int TD, bool FULL> struct SegVerify { template<class Seg> static void run(Seg const &, std::vector<Cell> const &) {} };
template<class M> struct SegVerify<M, 2, true> { template<class Seg> static void run(Seg const & seg, std::vector<Cell> const & cs) {
  typedef typename Types<M>::CellTag T; KeySet k[4]; for (auto const & q : cs) for (int d = 0; d <= 2; ++d) for (auto const & b : boundary<T>(q, d)) k[d].insert(sorted(b));
  check_seg_dim<viennagrid::vertex_tag>(seg, k[0], "segment vertex"); check_seg_dim<viennagrid::line_tag>(seg, k[1], "segment edge"); check_seg_dim<T>(seg, k[2], "segment cell"); } };
template<class M> struct SegVerify<M, 3, true> { template<class Seg> static void run(Seg const & seg, std::vector<Cell> const & cs) {
  typedef typename Types<M>::CellTag T; typedef typename T::facet_tag F; KeySet k[4]; for (auto const & q : cs) for (int d = 0; d <= 3; ++d) for (auto const & b : boundary<T>(q, d)) k[d].insert(sorted(b));
  check_seg_dim<viennagrid::vertex_tag>(seg, k[0], "segment vertex"); check_seg_dim<viennagrid::line_tag>(seg, k[1], "segment edge"); check_seg_dim<F>(seg, k[2], "segment face"); check_seg_dim<T>(seg, k[3], "segment cell"); } };

// segmentation part of a history (thin meshes have no boundary element storage and are exercised without segments)
template<class M, bool FULL> struct Segs {
  typedef typename viennagrid::result_of::segmentation<M>::type Sgn; typedef typename viennagrid::result_of::segment_handle<Sgn>::type SH;
  Sgn sgn; std::vector<std::vector<Cell> > cells;
  explicit Segs(M & mesh) : sgn(mesh) {}
  void create(long n) { cells.resize((size_t)n); for (long i = 0; i < n; ++i) sgn.make_segment(); }
  void cell(vh::Src & s, M & mesh, Model<M> & m, Cell const & q) { size_t j = (size_t)s.draw(cells.size()); SH sh = sgn[(int)j]; op_cell(mesh, sh, m, q); cells[j].push_back(q); }
  void verify() { for (size_t i = 0; i < cells.size(); ++i) { SH sh = sgn[(int)i]; typedef typename Types<M>::CellTag T; const int TD = Topo<T>::tdim; std::vector<size_t> n; for (int d = 0; d <= TD; ++d) { KeySet k; for (auto const & q : cells[i]) for (auto const & b : boundary<T>(q, d)) k.insert(sorted(b)); n.push_back(k.size()); } check_for_each(sh, n); }
    for (size_t i = 0; i < cells.size(); ++i) SegVerify<M, Topo<typename Types<M>::CellTag>::tdim, FULL>::run(sgn[(int)i], cells[i]); }
};
template<class M> struct Segs<M, false> { std::vector<int> cells; explicit Segs(M &) {} void create(long) {} void cell(vh::Src &, M &, Model<M> &, Cell const &) {} void verify() {} };

template<class M, int TD, bool FULL> struct ForEach { static void run(M & mesh, Model<M> const & m) { std::vector<size_t> n(1, m.pts.size()); for (int d = 1; d < TD; ++d) n.push_back(m.expected(d).size()); n.push_back(m.cells.size()); check_for_each(mesh, n); } };
template<class M, int TD> struct ForEach<M, TD, false> { static void run(M &, Model<M> const &) {} };
template<class M, bool FULL> void history(vh::Src & s, vh::Case & c) {
  typedef typename Types<M>::CellTag T; const int TD = Topo<T>::tdim;
  M mesh; Model<M> m; Segs<M, FULL> sg(mesh);
  sg.create(s.size(0, 3));
  if (s.chance(25)) { // start from a structured grid
    GridOpt o; o.maxn = TD == 3 ? 2 : 4; o.isolated = s.chance(20);
    RefMesh r = grid<T>(s, Types<M>::Point::dim, o); m.pts = r.pts; m.vh = add_vertices(mesh, r);
    for (auto const & q : r.cells) { m.cellkeys.insert(sorted(q)); op_cell(mesh, mesh, m, q); }
    c.label("grid");
  }
  long ops = s.size(1, 24);
  for (long i = 0; i < ops; ++i) {
    int k = (int)s.draw(10);
    if (k == 0) op_vertex(s, mesh, m);
    else if (k == 1) Direct<M, TD, FULL>::run(s, mesh, m);
    else {
      Cell q; if (!choose_cell(s, mesh, m, q)) continue;
      if (!sg.cells.empty() && s.chance(40)) { sg.cell(s, mesh, m, q); c.label("via-segment"); }
      else op_cell(mesh, mesh, m, q);
    }
    if (s.chance(8)) Verify<M, TD, FULL>::run(mesh, m);
  }
  m.describe(c.desc);
  Verify<M, TD, FULL>::run(mesh, m);
  sg.verify(); ForEach<M, TD, FULL>::run(mesh, m);
  // non-trivial: at least two cells share a facet (a vertex for lines)
  std::map<std::vector<int>, int> cnt; for (auto const & q : m.cells) for (auto const & b : boundary<T>(q, TD - 1)) if (++cnt[sorted(b)] == 2) c.hit();
}
