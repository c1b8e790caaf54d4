#include "topo.hpp"
using namespace topo;

// all elements of one type: ids unique; every id/handle/element lookup returns exactly that element; absent ids are not found
template<class ETag, class M, class Host> void check_lookup(M & mesh, Host & host, std::set<int> * all_ids, char const * what) {
  typedef typename viennagrid::result_of::element<M, ETag>::type E; typedef typename E::id_type ID;
  Host const & chost = host; std::map<int, E const *> byid;
  typedef typename viennagrid::result_of::element_range<Host, ETag>::type R; typedef typename viennagrid::result_of::const_element_range<Host, ETag>::type CR; R r(host); CR cr(chost);
  for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it)
    VH_CHECK(byid.insert(std::make_pair((int)(*it).id().get(), &*it)).second, what << ": id " << (*it).id().get() << " used twice");
  for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) {
    auto f = viennagrid::find(host, (*it).id()); VH_CHECK(!(f == r.end()) && &*f == &*it, what << ": find by id " << (*it).id().get() << " fails");
    auto cf = viennagrid::find(chost, (*it).id()); VH_CHECK(!(cf == cr.end()) && &*cf == &*it, what << ": const find by id fails");
    auto h = viennagrid::find_by_handle(host, it.handle()); VH_CHECK(!(h == r.end()) && &*h == &*it, what << ": find by handle fails");
    auto ch = viennagrid::find_by_handle(chost, it.handle()); VH_CHECK(!(ch == cr.end()) && &*ch == &*it, what << ": const find by handle fails");
    VH_CHECK(&viennagrid::dereference_handle(host, it.handle()) == &*it, what << ": handle of iterator");
    VH_CHECK(&viennagrid::dereference_handle(mesh, viennagrid::handle(mesh, *it)) == &*it, what << ": handle() of element");
    VH_CHECK(&viennagrid::dereference_handle(host, viennagrid::handle(host, *it)) == &*it, what << ": handle() of element in segment");
  }
  std::set<int> probe; for (int i = 0; i < 4; ++i) probe.insert(i); for (auto const & b : byid) { probe.insert(b.first + 1); if (b.first > 0) probe.insert(b.first - 1); } if (all_ids) probe.insert(all_ids->begin(), all_ids->end());
  for (int p : probe) { bool there = byid.count(p) > 0; ID id; id = ID(p);
    auto f = viennagrid::find(host, id); VH_CHECK((f == r.end()) == !there, what << ": find of id " << p << (there ? " misses" : " returns something for an absent id"));
    auto cf = viennagrid::find(chost, id); VH_CHECK((cf == cr.end()) == !there, what << ": const find of id " << p << " wrong"); }
  if (all_ids) for (auto const & b : byid) all_ids->insert(b.first);
}

template<class M, int TD> struct AllTags;
template<class M> struct AllTags<M, 1> { template<class H> static void run(M & m, H & h, std::set<int> * ids, char const * w) { check_lookup<viennagrid::vertex_tag>(m, h, ids, w); check_lookup<viennagrid::line_tag>(m, h, ids, w); } };
template<class M> struct AllTags<M, 2> { template<class H> static void run(M & m, H & h, std::set<int> * ids, char const * w) { AllTags<M, 1>::run(m, h, ids, w); check_lookup<typename Types<M>::CellTag>(m, h, ids, w); } };
template<class M> struct AllTags<M, 3> { template<class H> static void run(M & m, H & h, std::set<int> * ids, char const * w) { AllTags<M, 2>::run(m, h, ids, w); check_lookup<typename Types<M>::CellTag::facet_tag>(m, h, ids, w); } };
template<class ETag, class M> void check_consecutive(M & mesh, char const * what) {
  std::set<int> ids; for (auto const & e : viennagrid::elements<ETag>(mesh)) ids.insert((int)e.id().get());
  int n = (int)viennagrid::elements<ETag>(mesh).size(); VH_CHECK((int)ids.size() == n && (n == 0 || (*ids.begin() == 0 && *ids.rbegin() == n - 1)), what << ": automatic ids are not 0.." << n - 1);
}
template<class M, int TD> struct Consec { static void run(M & m, bool ev, bool ec) { if (!ev) check_consecutive<viennagrid::vertex_tag>(m, "vertex"); if (!ec) check_consecutive<typename Types<M>::CellTag>(m, "cell"); } };

template<class M> void ids(vh::Src & s, vh::Case & c) {
  typedef Types<M> T; typedef typename T::CellTag CT; const int TD = Topo<CT>::tdim; typedef typename T::Point P;
  M mesh; typedef typename viennagrid::result_of::segmentation<M>::type Sgn; typedef typename viennagrid::result_of::segment_handle<Sgn>::type SH; Sgn sgn(mesh);
  sgn.make_segment(); sgn.make_segment();
  struct V { int id; Pt p; typename T::VH h; bool seg[2]; }; std::vector<V> vs; struct C { int id; std::vector<int> v; typename T::CH h; }; std::vector<C> cs; std::set<int> vid, cid, lid; std::set<std::vector<int> > keys, lkeys;
  bool expv = false, expc = false, expl = false; int nauto_after = 0;
  bool grid = s.chance(50);
  auto coord = [&]() { Pt p; for (int d = 0; d < (int)P::dim; ++d) p.push_back(grid ? (double)s.range_signed(3) : s.real()); return p; };
  auto fresh_id = [&](std::set<int> const & used, std::vector<int> const & also) { int r; int mx = used.empty() ? -1 : *used.rbegin();
    switch (s.draw(5)) { case 0: r = mx + 1; break; case 1: r = 0; break; case 2: r = mx + 1 + (int)s.draw(5); break; case 3: r = (int)s.draw(40); break; default: r = mx + 2; }
    while (used.count(r)) ++r; return r; };
  // target: -1 mesh, 0/1 segment
  auto record_v = [&](typename T::VH h, Pt const & p, int target, int want) {
    auto & v = viennagrid::dereference_handle(mesh, h); int id = (int)v.id().get();
    if (want >= 0) { VH_EQ(id, want, "explicit vertex id"); } 
    VH_CHECK(vid.insert(id).second, "vertex id " << id << " is already in use");
    V n; n.id = id; n.p = p; n.h = h; n.seg[0] = target == 0; n.seg[1] = target == 1; vs.push_back(n); };
  long ops = s.size(1, 22);
  for (long i = 0; i < ops; ++i) {
    int target = s.chance(30) ? (int)s.draw(2) : -1; int op = (int)s.draw(8);
    if (op <= 1 || vs.size() < (size_t)Topo<CT>::nv) {
      if (op == 0 && s.chance(60)) {
        int id = fresh_id(vid, std::vector<int>()); expv = true; Pt p = coord(); typename T::Vertex::id_type vi(id); c.desc << "v#" << id << (target < 0 ? "m " : "s ");
        if (target < 0) record_v(viennagrid::make_vertex_with_id(mesh, vi, to_point<P>(p)), p, target, id); else { SH sh = sgn[target]; record_v(viennagrid::make_vertex_with_id(sh, vi, to_point<P>(p)), p, target, id); }
      } else { Pt p = coord(); c.desc << (target < 0 ? "vm " : "vs "); if (expv) ++nauto_after;
        if (target < 0) { if (s.chance(20)) { typename T::VH h = viennagrid::make_vertex(mesh); viennagrid::point(mesh, h) = to_point<P>(p); record_v(h, p, target, -1); } else record_v(viennagrid::make_vertex(mesh, to_point<P>(p)), p, target, -1); }
        else { SH sh = sgn[target]; record_v(viennagrid::make_vertex(sh, to_point<P>(p)), p, target, -1); } }
    } else if (op <= 3) { // tolerance-based creation
      Pt p = coord(); if (!grid && s.chance(60)) { p = vs[(size_t)s.draw(vs.size())].p; for (double & x : p) x += s.chance(50) ? 0.0 : (double)s.range_signed(8) * 1e-3; }
      int form = (int)s.draw(3); double tol = form == 0 ? mg::norm(p) / 1e6 : grid ? (double)s.range(0, 4) : (s.chance(20) ? 0.0 : (double)s.range(1, 16) * 1e-3);
      double best = 1e300; bool border = false; for (V const & v : vs) if (target < 0 || v.seg[target]) { double d = mg::norm(diff(p, v.p)); best = std::min(best, d); if (!grid && std::fabs(d - tol) < 1e-9 * (1 + mg::norm(p))) border = true; if (grid && d != std::floor(d) && std::fabs(d - tol) < 1e-9) border = true; }
      if (form == 0 && best < 1e300 && best > 0 && best < 1e-4 * mg::norm(p)) border = true;   // too close to the built-in relative tolerance
      if (border) continue;
      bool expect_old = tol > 0 && best < tol; size_t before = viennagrid::vertices(mesh).size(); c.desc << "u" << tol << " ";
      typename T::VH h; P vp = to_point<P>(p);
      if (target < 0) h = form == 0 ? viennagrid::make_unique_vertex(mesh, vp) : viennagrid::make_unique_vertex(mesh, vp, tol); else { SH sh = sgn[target]; h = form == 0 ? viennagrid::make_unique_vertex(sh, vp) : viennagrid::make_unique_vertex(sh, vp, tol); }
      size_t after = viennagrid::vertices(mesh).size();
      if (expect_old) { c.label("unique-hit"); VH_CHECK(after == before, "tolerance creation made a new vertex although one is at distance " << best << " < " << tol); Pt q = from_point(viennagrid::point(mesh, h)); VH_CHECK(mg::norm(diff(p, q)) < tol * (1 + 1e-12), "returned vertex is farther than the tolerance"); 
        bool in = false; for (V const & v : vs) if (v.h == h && (target < 0 || v.seg[target])) in = true; VH_CHECK(in, "returned vertex is not one of the mesh or segment"); }
      else { VH_CHECK(after == before + 1, "tolerance creation did not create a vertex (nearest " << best << ", tolerance " << tol << ")"); if (expv) ++nauto_after; record_v(h, p, target, -1); }
    } else if (op == 4 && TD >= 2) { // line, explicit or automatic id
      size_t a = (size_t)s.draw(vs.size()), b = (size_t)s.draw(vs.size()); if (a == b) continue; std::vector<int> k = sorted(std::vector<int>{vs[a].id, vs[b].id}); if (lkeys.count(k)) continue;
      std::vector<typename T::VH> h; h.push_back(vs[a].h); h.push_back(vs[b].h);
      std::set<int> used; bool exists = false; for (auto const & e : viennagrid::elements<viennagrid::line_tag>(mesh)) { used.insert((int)e.id().get()); if (sorted(vids(e)) == k) exists = true; }
      if (exists) continue; typedef typename viennagrid::result_of::element<M, viennagrid::line_tag>::type L;
      if (s.chance(60)) { int id = fresh_id(used, std::vector<int>()); expl = true; c.desc << "l#" << id << " "; auto lh = viennagrid::make_element_with_id<viennagrid::line_tag>(mesh, h.begin(), h.end(), typename L::id_type(id)); VH_EQ((int)viennagrid::dereference_handle(mesh, lh).id().get(), id, "explicit line id"); }
      else { auto lh = viennagrid::make_element<viennagrid::line_tag>(mesh, h.begin(), h.end()); VH_CHECK(!used.count((int)viennagrid::dereference_handle(mesh, lh).id().get()), "automatic line id already used"); if (expl) ++nauto_after; }
      lkeys.insert(k);
    } else { // cell
      std::vector<size_t> idx; for (size_t k = 0; k < vs.size(); ++k) idx.push_back(k); s.shuffle(idx); idx.resize(Topo<CT>::nv);
      std::vector<int> k; std::vector<typename T::VH> h; for (size_t x : idx) { k.push_back(vs[x].id); h.push_back(vs[x].h); } if (!keys.insert(sorted(k)).second) continue;
      C n; n.v = k; bool ex = s.chance(40); int want = -1; typedef typename T::Cell_::id_type CID;
      if (ex) { want = fresh_id(cid, std::vector<int>()); expc = true; c.desc << "c#" << want << " "; } else { c.desc << "c "; if (expc) ++nauto_after; }
      if (target < 0) n.h = ex ? viennagrid::make_cell_with_id(mesh, h.begin(), h.end(), CID(want)) : viennagrid::make_cell(mesh, h.begin(), h.end());
      else { SH sh = sgn[target]; n.h = ex ? viennagrid::make_cell_with_id(sh, h.begin(), h.end(), CID(want)) : viennagrid::make_cell(sh, h.begin(), h.end()); for (size_t x : idx) vs[x].seg[target] = true; }
      n.id = (int)viennagrid::dereference_handle(mesh, n.h).id().get(); if (ex) VH_EQ(n.id, want, "explicit cell id"); VH_CHECK(cid.insert(n.id).second, "cell id " << n.id << " is already in use"); cs.push_back(n);
    }
  }
  std::set<int> all; AllTags<M, TD>::run(mesh, mesh, &all, "mesh");
  for (int k = 0; k < 2; ++k) { SH sh = sgn[k]; AllTags<M, TD>::run(mesh, sh, &all, "segment"); }
  for (V const & v : vs) { auto const & e = viennagrid::dereference_handle(mesh, v.h); VH_CHECK((int)e.id().get() == v.id && from_point(viennagrid::point(mesh, v.h)) == v.p, "vertex handle refers to another vertex"); }
  for (C const & q : cs) { auto const & e = viennagrid::dereference_handle(mesh, q.h); VH_CHECK((int)e.id().get() == q.id && vids(e) == q.v, "cell handle refers to another cell"); }
  Consec<M, TD>::run(mesh, expv, expc); if (TD >= 2 && !expl) check_consecutive<viennagrid::line_tag>(mesh, "line");
  c.hit(nauto_after > 0 || c.labels.count("unique-hit"));
}
