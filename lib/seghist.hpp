// Histories over a mesh with several segments: model and operations shared by the checks of co-boundary,
// neighbour, boundary, interface and segment membership queries.
#ifndef SEGHIST_HPP
#define SEGHIST_HPP
#include "topo.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
namespace seghist {
using namespace topo;
typedef std::vector<int> Key;

template<class Tag, int D> struct TagOf;                      // element tag of dimension D below cell type Tag
template<class Tag> struct TagOf<Tag, 0> { typedef viennagrid::vertex_tag type; };
template<> struct TagOf<viennagrid::line_tag, 1> { typedef viennagrid::line_tag type; };
template<> struct TagOf<viennagrid::triangle_tag, 1> { typedef viennagrid::line_tag type; };
template<> struct TagOf<viennagrid::triangle_tag, 2> { typedef viennagrid::triangle_tag type; };
template<> struct TagOf<viennagrid::quadrilateral_tag, 1> { typedef viennagrid::line_tag type; };
template<> struct TagOf<viennagrid::quadrilateral_tag, 2> { typedef viennagrid::quadrilateral_tag type; };
template<> struct TagOf<viennagrid::tetrahedron_tag, 1> { typedef viennagrid::line_tag type; };
template<> struct TagOf<viennagrid::tetrahedron_tag, 2> { typedef viennagrid::triangle_tag type; };
template<> struct TagOf<viennagrid::tetrahedron_tag, 3> { typedef viennagrid::tetrahedron_tag type; };
template<> struct TagOf<viennagrid::hexahedron_tag, 1> { typedef viennagrid::line_tag type; };
template<> struct TagOf<viennagrid::hexahedron_tag, 2> { typedef viennagrid::quadrilateral_tag type; };
template<> struct TagOf<viennagrid::hexahedron_tag, 3> { typedef viennagrid::hexahedron_tag type; };

// content of one host (the mesh or one segment)
struct HostM {
  std::set<int> cells;            // indices into World::cells
  KeySet el[4];                   // all elements of the host by dimension
  KeySet direct[3];               // vertices, edges and faces put in on their own (faces only for simplices)
};

template<class M_> struct World {
  typedef M_ M; typedef Types<M> T; typedef typename T::CellTag CT; enum { TD = Topo<CT>::tdim };
  typedef typename viennagrid::result_of::segmentation<M>::type Sgn; typedef typename viennagrid::result_of::segment_handle<Sgn>::type SH;
  M mesh; Sgn sgn;
  std::vector<Pt> pts; std::vector<typename T::VH> vh;
  std::vector<Cell> cells; std::vector<typename T::CH> ch; KeySet cellkeys;
  std::map<Key, size_t> byk; HostM mh; std::vector<HostM> seg; bool gridonly; std::vector<Cell> todo;       // cells of a structured mesh not inserted yet
  struct LogE { int target, dim; Key key; }; std::vector<LogE> log;     // everything put into the mesh (target -1) or a segment
  void put_log(int t, int d, Key const & k0) { LogE e; e.target = t; e.dim = d; e.key = sorted(k0); log.push_back(e);
    for (int x = 0; x <= d; ++x) { KeySet b; if (x == d) b.insert(e.key); else b = bnd(e.key, d, x); mh.el[x].insert(b.begin(), b.end()); if (t >= 0) seg[(size_t)t].el[x].insert(b.begin(), b.end()); } }
  // takes an element out of a segment: it and everything of the segment that contains it
  void model_erase(int t, int dim, Key const & k) {
    HostM & h = seg[(size_t)t]; for (int d = dim + 1; d <= (int)TD; ++d) { KeySet rest; for (auto const & x : h.el[d]) if (!bnd(x, d, dim).count(k)) rest.insert(x); h.el[d] = rest; }
    h.el[dim].erase(k); std::set<int> c; for (int i : h.cells) if (h.el[TD].count(sorted(cells[(size_t)i]))) c.insert(i); h.cells = c;
  }
  template<int D> bool erase_dim(vh::Src & s, int t) {
    typedef typename TagOf<CT, D>::type ET; KeySet const & ks = seg[(size_t)t].el[D]; if (ks.empty()) return false; KeySet::const_iterator it = ks.begin(); std::advance(it, (long)s.draw(ks.size())); Key k = *it; SH sh = sgn[t];
    for (auto & e : viennagrid::elements<ET>(mesh)) if (sorted(vids(e)) == k) { viennagrid::erase(sh, e); model_erase(t, D, k); return true; }
    vh::fail("element not found in the mesh"); return false;
  }
  template<int D, int X> struct Er { static bool run(World & w, vh::Src & s, int d, int t) { return d >= D ? w.template erase_dim<D>(s, t) : Er<D - 1, X>::run(w, s, d, t); } };
  template<int X> struct Er<-1, X> { static bool run(World &, vh::Src &, int, int) { return false; } };
  void start_over(vh::Src & s) {             // clears the segmentation and makes new, empty segments with the same ids
    if (s.chance(25)) sgn.init(mesh); else if (s.chance(50)) sgn.clear(); else viennagrid::clear(sgn);
    for (size_t i = 0; i < seg.size(); ++i) { SH h = s.chance(50) ? sgn.make_segment() : sgn.get_make_segment((int)i); VH_CHECK((int)h.id() == (int)i, "a cleared segmentation numbers its segments differently from a new one: " << h.id() << " instead of " << i); seg[i] = HostM(); }
  }
  std::string take_out(vh::Src & s) {        // from a random segment: one element (mostly a cell) or everything
    std::ostringstream o; if (seg.empty()) return ""; int t = (int)s.draw(seg.size());
    if (s.chance(6)) { start_over(s); o << "C" << seg.size(); }
    else if (s.chance(12)) { SH sh = sgn[t]; viennagrid::clear(sh); seg[(size_t)t] = HostM(); o << "X" << t; }
    else { int d = s.chance(60) ? (int)TD : (int)s.draw(TD + 1); if (Er<TD, 0>::run(*this, s, d, t)) o << "E" << t << "." << d; }
    return o.str();
  }
  explicit World() : mesh(), sgn(mesh), gridonly(false) {}

  KeySet const & keys(HostM const & h, int d) const { return h.el[d]; }
  static void subsets(Key const & f, int n, KeySet & k) {
    if (n == 1) for (int v : f) k.insert(Key(1, v));
    if (n == 2) for (size_t i = 0; i < f.size(); ++i) for (size_t j = i + 1; j < f.size(); ++j) k.insert(Key{f[i], f[j]});
  }
  // boundary elements of dimension d of the element given by its key and dimension
  KeySet bnd(Key const & k, int dk, int d) const {
    KeySet r;
    if (d == 0) { subsets(k, 1, r); return r; }
    if (dk == (int)TD) { auto f = byk.find(k); if (f != byk.end()) for (auto const & b : boundary<CT>(cells[f->second], d)) r.insert(sorted(b)); return r; }
    if (dk == 2 && d == 1) {
      if (k.size() == 3) { subsets(k, 2, r); return r; }
      for (auto const & q : cells) for (auto const & f : boundary<CT>(q, 2)) if (sorted(f) == k) { for (auto const & e : boundary<CT>(q, 1)) if (std::count(k.begin(), k.end(), e[0]) && std::count(k.begin(), k.end(), e[1])) r.insert(sorted(e)); return r; }
    }
    return r;
  }
  // facet key -> number of cells of the host containing it
  std::map<Key, int> facet_count(HostM const & h) const { std::map<Key, int> c; for (int i : h.cells) for (auto const & b : boundary<CT>(cells[(size_t)i], (int)TD - 1)) ++c[sorted(b)]; return c; }

  // ---- operations ----
  void vertex(vh::Src & s, int target) {
    Pt p; for (int d = 0; d < (int)T::Point::dim; ++d) p.push_back(s.real());
    if (target < 0) vh.push_back(viennagrid::make_vertex(mesh, to_point<typename T::Point>(p))); else { SH h = sgn[target]; vh.push_back(viennagrid::make_vertex(h, to_point<typename T::Point>(p))); seg[(size_t)target].direct[0].insert(Key(1, (int)pts.size())); }
    mh.direct[0].insert(Key(1, (int)pts.size())); put_log(target, 0, Key(1, (int)pts.size())); pts.push_back(p);
  }
  void start(vh::Src & s, long maxn, int maxseg, int grid_percent) {
    long ns = s.range(maxseg > 0 ? 1 : 0, maxseg); for (long i = 0; i < ns; ++i) sgn.make_segment(); seg.resize((size_t)ns);
    gridonly = (int)Topo<CT>::nv == 8 || s.chance(grid_percent);
    if (gridonly) { GridOpt o; o.maxn = maxn; RefMesh r = grid<CT>(s, T::Point::dim, o); vh = add_vertices(mesh, r); pts = r.pts; for (size_t i = 0; i < pts.size(); ++i) { mh.direct[0].insert(Key(1, (int)i)); mh.el[0].insert(Key(1, (int)i)); } todo = r.cells; while (todo.size() > 60) cell(s, target(s, 55)); }     // most cells of a large mesh are there from the start
  }
  bool next_cell(vh::Src & s, Cell & q) {
    if (gridonly) { if (todo.empty()) return false; q = todo.back(); todo.pop_back(); cellkeys.insert(sorted(q)); return true; }
    const size_t nv = Topo<CT>::nv; q.clear();
    if (!cells.empty() && s.chance(70)) { Cell const & o = cells[(size_t)s.draw(cells.size())]; if (s.chance(70) && TD >= 2) { Tab f = boundary<CT>(o, (int)TD - 1); q = f[(size_t)s.draw(f.size())]; s.shuffle(q); } else { Cell t(o); s.shuffle(t); t.resize(1 + (size_t)s.draw(nv - 1)); q = t; } }
    while (q.size() < nv) { int v = -1; if (pts.size() >= nv && s.chance(60)) { v = (int)s.draw(pts.size()); if (std::find(q.begin(), q.end(), v) != q.end()) v = -1; } if (v < 0) { vertex(s, -1); v = (int)pts.size() - 1; } q.push_back(v); }
    if (s.chance(50)) s.shuffle(q);
    return cellkeys.insert(sorted(q)).second;
  }
  bool cell(vh::Src & s, int target) {
    Cell q; if (!next_cell(s, q)) return false; std::vector<typename T::VH> h; for (int v : q) h.push_back(vh[(size_t)v]);
    if (target < 0) ch.push_back(viennagrid::make_cell(mesh, h.begin(), h.end())); else { SH sh = sgn[target]; ch.push_back(viennagrid::make_cell(sh, h.begin(), h.end())); seg[(size_t)target].cells.insert((int)cells.size()); }
    byk[sorted(q)] = cells.size(); mh.cells.insert((int)cells.size()); cells.push_back(q); put_log(target, TD, q); return true;
  }
  void add_cell_to(vh::Src & s, int target) {
    if (cells.empty() || target < 0) return; size_t i = (size_t)s.draw(cells.size()); if (!mh.cells.count((int)i)) return; SH sh = sgn[target];
    bool fresh = true; for (auto const & h : seg) for (int d = 0; d <= (int)TD && fresh; ++d) { KeySet b; if (d == (int)TD) b.insert(sorted(cells[i])); else b = bnd(sorted(cells[i]), TD, d); for (auto const & k : b) if (h.el[d].count(k)) fresh = false; }
    switch (s.draw(4)) { case 3: if (fresh) { viennagrid::unchecked_add(sh, viennagrid::dereference_handle(mesh, ch[i])); break; }      // allowed only if nothing of the cell is in a segment yet
      case 0: viennagrid::add(sh, ch[i]); break; case 1: viennagrid::add(sh, viennagrid::dereference_handle(mesh, ch[i])); break; default: viennagrid::add(sgn, target, ch[i]); }
    seg[(size_t)target].cells.insert((int)i); put_log(target, TD, cells[i]);
  }
  template<int D> void direct(vh::Src & s, int target) {
    if (gridonly || D >= (int)TD || pts.size() < (size_t)D + 1 || (D == 2 && Topo<CT>::nv == 8)) return; Cell q; for (int t = 0; t < 20 && q.size() < (size_t)D + 1; ++t) { int v = (int)s.draw(pts.size()); if (std::find(q.begin(), q.end(), v) == q.end()) q.push_back(v); } if (q.size() < (size_t)D + 1) return;
    std::vector<typename T::VH> h; for (int v : q) h.push_back(vh[(size_t)v]); typedef typename TagOf<CT, (D < (int)TD ? D : 0)>::type ET;
    if (target < 0) DirectMake<ET, D>::make(mesh, h); else { SH sh = sgn[target]; DirectMake<ET, D>::make(sh, h); seg[(size_t)target].direct[D].insert(sorted(q)); }
    mh.direct[D].insert(sorted(q)); put_log(target, D, q);
  }
  template<class ET, int D> struct DirectMake { template<class H> static void make(H & h, std::vector<typename T::VH> const & v) { viennagrid::make_element<ET>(h, v.begin(), v.end()); } };
  template<int D> struct DirectMake<viennagrid::vertex_tag, D> { template<class H> static void make(H &, std::vector<typename T::VH> const &) {} };
  // add an existing lower-dimensional element to a segment
  template<int D> void add_lower(vh::Src & s, int target) {
    if (target < 0 || D >= (int)TD) return; typedef typename TagOf<CT, (D < (int)TD ? D : 0)>::type ET; KeySet k = keys(mh, D); if (k.empty()) return; size_t n = (size_t)s.draw(k.size()); KeySet::iterator it = k.begin(); std::advance(it, (long)n);
    if (D == 2 && it->size() != 3) return;
    SH sh = sgn[target];
    for (auto & e : viennagrid::elements<ET>(mesh)) if (sorted(vids(e)) == *it) { viennagrid::add(sh, e); seg[(size_t)target].direct[D].insert(*it); put_log(target, D, *it); return; }
    vh::fail("element of the model not found in the mesh");
  }
  int target(vh::Src & s, int pct) { return !seg.empty() && s.chance(pct) ? (int)s.draw(seg.size()) : -1; }
  // inserts an edge that is there already many times: nothing changes, but a counter of changes comes around if it is too small
  void burst(vh::Src & s, int t) {
    if (TD < 2) return; KeySet const & k = t < 0 ? mh.el[1] : seg[(size_t)t].el[1]; if (k.empty()) return; KeySet::const_iterator it = k.begin(); std::advance(it, (long)s.draw(k.size())); std::vector<typename T::VH> h; for (int v : *it) h.push_back(vh[(size_t)v]); long n = 256 - (long)s.draw(30);
    typedef typename TagOf<CT, ((int)TD > 1 ? 1 : 0)>::type ET; for (long i = 0; i < n; ++i) { if (t < 0) DirectMake<ET, 1>::make(mesh, h); else { SH sh = sgn[t]; DirectMake<ET, 1>::make(sh, h); } }
    Key e = *it; put_log(t, 1, e);       // C07 keeps its own record of what was taken out: there the edge may be new to the segment
  }
  // one random insertion; returns a short text
  std::string step(vh::Src & s) {
    int t = target(s, 55); std::ostringstream o;
    switch (s.draw(10)) {
      case 0: if (!gridonly) { vertex(s, t); o << "V" << t; } break;
      case 1: direct<1>(s, t); o << "L" << t; break;
      case 2: direct<2>(s, t); o << "F" << t; break;
      case 3: case 4: add_cell_to(s, t); o << "A" << t; break;
      case 5: if (s.chance(50)) add_lower<1>(s, t); else add_lower<0>(s, t); o << "a" << t; break;
      default: cell(s, t); o << "C" << t;
    }
    if (s.chance(3)) { burst(s, t); o << "B" << t; }
    return o.str();
  }
  template<class OS> void describe(OS & os) const { os << " cells"; for (auto const & q : cells) put(os, q); for (size_t i = 0; i < seg.size(); ++i) { os << " seg" << i << ":"; for (int j : seg[i].cells) os << j << ","; for (int d = 0; d < 3; ++d) for (auto const & k : seg[i].direct[d]) put(os, k); } for (int d = 1; d < 3; ++d) for (auto const & k : mh.direct[d]) { os << " direct"; put(os, k); } }
};
} // namespace seghist
#endif
