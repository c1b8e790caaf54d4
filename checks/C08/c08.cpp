#include "seghist.hpp"
#include <memory>
#include "viennagrid/mesh/element_deletion.hpp"
using namespace seghist;
typedef viennagrid::triangular_2d_mesh M;

struct SegM { std::string name; int token; };       // token: id of a vertex put into the segment, identifies the segment
template<class Sgn> struct Names {
  typedef typename viennagrid::result_of::segment_handle<Sgn>::type SH;
  M & mesh; Sgn sgn; std::map<int, SegM> seg; std::vector<Types<M>::VH> & vh; int next; std::vector<std::string> pool; M fm; std::unique_ptr<Sgn> fresh;      // fresh: a segmentation that replays everything since the last clear
  Names(M & m, std::vector<Types<M>::VH> & v) : mesh(m), sgn(m), vh(v), next(0), fresh(new Sgn(fm)) { char const * n[] = {"0", "1", "2", "3", "5", "a", "b", "segment", "", "-1", "a b"}; pool.assign(n, n + 11); }
  bool used(std::string const & n) const { for (auto const & p : seg) if (p.second.name == n) return true; return false; }
  static std::string str(int i) { std::ostringstream o; o << i; return o.str(); }
  int owner(std::string const & n) const { for (auto const & p : seg) if (p.second.name == n) return p.first; return -1000; }
  void tokenise(SH & h, SegM & m) { m.token = next++; vh.push_back(viennagrid::make_vertex(mesh, Types<M>::Point((double)m.token, 0.0))); viennagrid::add(h, vh.back()); }
  void verify(SH const & h, int id, char const * what) {
    auto it = seg.find(id); VH_CHECK(it != seg.end(), what << ": unknown segment id " << id); VH_CHECK((int)h.id() == id, what << ": id is " << h.id() << " instead of " << id); VH_CHECK(h.name() == it->second.name, what << ": name of segment " << id << " is '" << h.name() << "' instead of '" << it->second.name << "'");
    VH_CHECK(viennagrid::vertices(h).size() == 1 && (int)viennagrid::vertices(h)[0].id().get() == it->second.token, what << ": segment " << id << " has other content"); VH_CHECK(&h.mesh() == &mesh && &h.parent() == &sgn, what << ": wrong mesh or segmentation");
  }
  void all() {
    Sgn const & c = sgn; VH_EQ(sgn.size(), seg.size(), "number of segments"); VH_CHECK(sgn.empty() == seg.empty(), "empty()");
    std::set<int> ids; size_t n = 0; for (typename Sgn::iterator it = sgn.begin(); it != sgn.end(); ++it, ++n) { VH_CHECK(ids.insert((int)(*it).id()).second, "segment visited twice"); verify(*it, (int)it->id(), "iteration"); } VH_EQ(n, seg.size(), "visited segments");
    n = 0; for (typename Sgn::const_iterator it = c.begin(); it != c.end(); ++it, ++n) verify(*it, (int)it->id(), "const iteration"); VH_EQ(n, seg.size(), "visited segments");
    for (int id = -1; id < 9; ++id) { bool in = seg.count(id) > 0; VH_CHECK(c.segment_present(id) == in, "segment_present(" << id << ")"); VH_CHECK((c.find(id) != c.end()) == in && (sgn.find(id) != sgn.end()) == in, "find(" << id << ")"); if (in) { verify(*c.find(id), id, "find"); verify(c.get_segment(id), id, "get_segment"); verify(c[id], id, "[]"); verify(c(id), id, "()"); }
      try { SH const & h = c.at(id); VH_CHECK(in, "at(" << id << ") did not fail"); verify(h, id, "at"); } catch (viennagrid::segment_id_not_found_exception const & e) { VH_CHECK(!in, "at(" << id << ") failed"); VH_CHECK(std::string(e.what()).find(str(id)) != std::string::npos, "message of at(id)"); } }
    std::vector<std::string> names(pool); for (auto const & p : seg) names.push_back(p.second.name);
    for (auto const & nm : names) { int o = owner(nm); try { SH const & h = c.at(nm); VH_CHECK(o != -1000, "at('" << nm << "') did not fail"); verify(h, o, "at(name)"); } catch (viennagrid::segment_name_not_found_exception const & e) { VH_CHECK(o == -1000, "at('" << nm << "') failed"); VH_CHECK(std::string(e.what()).find(nm) != std::string::npos, "message of at(name)"); } if (o != -1000) { verify(c.get_segment(nm), o, "get_segment(name)"); verify(c[nm], o, "[name]"); } }
    if (!seg.empty()) VH_CHECK((int)sgn.id_upper_bound() >= seg.rbegin()->first, "id_upper_bound below an id");
    size_t nv = viennagrid::vertices(sgn).size(); VH_EQ(nv, seg.size(), "elements of the segmentation");
  }
};
template<class Sgn> void names(vh::Src & s, vh::Case & c) {
  typedef Names<Sgn> N; typedef typename N::SH SH; M mesh; std::vector<Types<M>::VH> vh_; N a(mesh, vh_), b(mesh, vh_); long ops = s.size(2, 30); bool renamed = false, cleared = false, coll = false; int shared = 0;
  for (long i = 0; i < ops; ++i) {
    N & n = s.chance(20) ? b : a; shared = std::max(a.next, b.next); a.next = b.next = shared;
    switch (s.draw(8)) {
      case 0: case 1: { SH & h = n.sgn.make_segment(); int id = (int)h.id(); c.desc << "make->" << id << " "; VH_CHECK(!n.seg.count(id), "make_segment returned the existing id " << id); { int f = (int)n.fresh->make_segment().id(); VH_CHECK(id == f, "a cleared segmentation gives the id " << id << " where a new one gives " << f); } VH_CHECK(!n.used(h.name()), "make_segment gave the name '" << h.name() << "' already in use"); SegM m; m.name = h.name(); VH_CHECK(m.name == N::str(id), "default name of segment " << id << " is '" << m.name << "'"); n.tokenise(h, m); n.seg[id] = m; break; }
      case 2: { int id = (int)s.range(0, 7); bool in = n.seg.count(id) > 0; bool c0 = !in && n.used(N::str(id)); c.desc << "get(" << id << ") ";
        try { SH & h = s.chance(50) ? n.sgn.get_make_segment(id) : n.sgn[id]; VH_CHECK(!c0, "two segments with the name " << id); if (in) n.verify(h, id, "get_make_segment"); else { VH_CHECK((int)h.id() == id, "id of the new segment"); SegM m; m.name = N::str(id); n.tokenise(h, m); n.seg[id] = m; n.fresh->get_make_segment(id); } } catch (viennagrid::segment_name_collision_exception const & e) { VH_CHECK(c0, "get_make_segment(" << id << ") refused"); coll = true; VH_CHECK(std::string(e.what()).find(N::str(id)) != std::string::npos, "message"); } break; }
      case 3: case 4: { std::string nm = n.pool[(size_t)s.draw(n.pool.size())]; int o = n.owner(nm); c.desc << "get('" << nm << "') "; SH & h = s.chance(50) ? n.sgn.get_make_segment(nm) : n.sgn[nm]; if (o != -1000) n.verify(h, o, "get_make_segment(name)"); else { int id = (int)h.id(); VH_CHECK(!n.seg.count(id), "id of new named segment in use"); VH_CHECK(h.name() == nm, "name of new segment"); { int f = (int)n.fresh->get_make_segment(nm).id(); VH_CHECK(id == f, "a cleared segmentation gives the id " << id << " where a new one gives " << f); } SegM m; m.name = nm; n.tokenise(h, m); n.seg[id] = m; } break; }
      case 5: case 6: { if (n.seg.empty()) break; auto it = n.seg.begin(); std::advance(it, (long)s.draw(n.seg.size())); std::string nm = n.pool[(size_t)s.draw(n.pool.size())]; bool u = n.used(nm); c.desc << "name(" << it->first << ",'" << nm << "') "; SH h = n.sgn[it->first]; try { h.set_name(nm); VH_CHECK(!u, "name '" << nm << "' given twice"); it->second.name = nm; renamed = true; { SH g = (*n.fresh)[it->first]; g.set_name(nm); } } catch (viennagrid::segment_name_collision_exception const &) { VH_CHECK(u, "free name '" << nm << "' refused"); coll = true; } break; }
      default: if (s.chance(30)) { if (s.chance(30)) n.sgn.init(n.mesh); else if (s.chance(50)) n.sgn.clear(); else viennagrid::clear(n.sgn); n.seg.clear(); n.fresh.reset(new Sgn(n.fm)); cleared = true; c.desc << "clear "; }
    }
    a.all(); b.all();
  }
  c.hit(renamed && (a.seg.size() + b.seg.size() >= 2 || cleared)); if (coll) c.label("collision"); if (cleared) c.label("cleared");
}
VH_REG(n1, "names", names<viennagrid::result_of::segmentation<M>::type>, 1);
VH_REG(n2, "names-hull", (names<viennagrid::result_of::oriented_3d_hull_segmentation<viennagrid::triangular_2d_mesh>::type>), 0.5);
