#include "seghist.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
using namespace seghist;

template<class M> struct Mod {           // explicit element sets per segment
  typedef World<M> W; typedef typename W::CT CT; enum { TD = W::TD };
  W w; std::vector<std::vector<KeySet> > el; size_t seen; KeySet allmesh[4];
  Mod() : seen(0) {}
  void sync() {
    while (el.size() < w.seg.size()) el.push_back(std::vector<KeySet>(4));
    for (; seen < w.log.size(); ++seen) { auto const & l = w.log[seen];
      for (int d = 0; d <= l.dim; ++d) { KeySet b; if (d == l.dim) b.insert(l.key); else b = w.bnd(l.key, l.dim, d); for (auto const & k : b) { allmesh[d].insert(k); if (l.target >= 0) el[(size_t)l.target][(size_t)d].insert(k); } } }
  }
  void model_erase(int t, int dim, Key const & k) {
    for (int d = dim + 1; d <= (int)TD; ++d) { KeySet rest; for (auto const & x : el[(size_t)t][(size_t)d]) if (!w.bnd(x, d, dim).count(k)) rest.insert(x); el[(size_t)t][(size_t)d] = rest; }
    el[(size_t)t][(size_t)dim].erase(k);
  }
  template<int D> bool erase(vh::Src & s, int t, std::ostream & o) {
    typedef typename TagOf<CT, D>::type ET; KeySet const & ks = el[(size_t)t][D]; if (ks.empty()) return false; KeySet::const_iterator it = ks.begin(); std::advance(it, (long)s.draw(ks.size())); Key k = *it; typename W::SH sh = w.sgn[t];
    for (auto & e : viennagrid::elements<ET>(w.mesh)) if (sorted(vids(e)) == k) { viennagrid::erase(sh, e); model_erase(t, D, k); o << "E" << t << str(k) << " "; return true; }
    vh::fail("element not found in the mesh"); return false;
  }
  template<int D> void check() {
    typedef typename TagOf<CT, D>::type ET; KeySet un; typename W::Sgn const & csgn = w.sgn;
    compare(walk<ET>(w.mesh, "mesh"), allmesh[D], "mesh element");
    for (size_t t = 0; t < el.size(); ++t) { typename W::SH sh = w.sgn[(int)t]; std::ostringstream o; o << "segment " << t << ": element"; compare(walk<ET>(sh, o.str().c_str()), el[t][D], o.str().c_str()); un.insert(el[t][D].begin(), el[t][D].end()); }
    { KeySet got; size_t n = 0; auto r = viennagrid::elements<ET>(w.sgn); for (auto it = r.begin(); it != r.end(); ++it, ++n) VH_CHECK(got.insert(sorted(vids(*it))).second, "segmentation lists element " << str(sorted(vids(*it))) << " twice"); VH_CHECK(n == r.size(), "segmentation range size"); for (auto const & k : un) VH_CHECK(got.count(k), "segmentation lacks element " << str(k)); for (auto const & k : got) VH_CHECK(un.count(k), "segmentation lists element " << str(k) << " that is in no segment"); }
    typedef typename viennagrid::result_of::element<M, ET>::type ElT; std::vector<std::pair<std::vector<int>, typename viennagrid::result_of::segment_id_range<typename W::Sgn, ElT>::type> > seenids;
    for (auto const & e : viennagrid::elements<ET>(w.mesh)) { Key k = sorted(vids(e)); std::multiset<int> ids; auto r = viennagrid::segment_ids(csgn, e); for (auto it = r.begin(); it != r.end(); ++it) ids.insert((int)*it); std::multiset<int> exp;
      for (size_t t = 0; t < el.size(); ++t) { bool in = el[t][D].count(k) > 0; if (in) exp.insert((int)t); typename W::SH const sh = w.sgn[(int)t]; VH_CHECK(viennagrid::is_in_segment(sh, e) == in, "is_in_segment(" << t << ", " << str(k) << ") should be " << in); }
      std::vector<int> x(exp.begin(), exp.end()); typename decltype(seenids)::value_type pr(x, r); for (auto const & y : seenids) VH_CHECK((r.is_equal(y.second) != 0) == (x == y.first) && (y.second.is_equal(r) != 0) == (x == y.first), "is_equal of segment id ranges of " << str(k) << " and another element should be " << (x == y.first)); if (seenids.size() < 8) seenids.push_back(pr);
      VH_CHECK(ids == exp, "segment_ids of " << str(k) << " wrong"); VH_CHECK(r.size() == exp.size() && r.empty() == exp.empty(), "segment_ids size"); }
  }
  // queries restricted to a segment see what was taken out
  void queries(vh::Src & s, int t) {
    typename W::SH sh = w.sgn[t]; typedef typename TagOf<CT, (int)TD - 1>::type FT; std::map<Key, int> cnt; std::map<Key, KeySet> vc;
    for (auto const & k : el[(size_t)t][TD]) { for (auto const & f : w.bnd(k, TD, (int)TD - 1)) ++cnt[f]; for (int v : k) vc[Key(1, v)].insert(k); }
    if (s.chance(50)) { for (auto & e : viennagrid::elements<FT>(sh)) { Key k = sorted(vids(e)); VH_CHECK(viennagrid::is_boundary(sh, e) == (cnt[k] % 2 == 1), "is_boundary of facet " << str(k) << " of segment " << t << " wrong"); } return; }
    typedef typename viennagrid::result_of::element_range<typename W::SH, viennagrid::vertex_tag>::type R; R r(sh);
    for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { KeySet got; for (auto & q : viennagrid::coboundary_elements<viennagrid::vertex_tag, CT>(sh, it.handle())) got.insert(sorted(vids(q))); Key k(1, (int)(*it).id().get()); VH_CHECK(got == vc[k], "cells of segment " << t << " around vertex " << k[0] << " wrong"); }
  }
  template<int D> struct All { static void run(Mod & m) { All<D - 1>::run(m); m.template check<D>(); } };
};
template<int D> struct Every { template<class X> static void check(X & x) { Every<D - 1>::check(x); x.template check<D>(); } template<class X> static bool erase(X & x, vh::Src & s, int d, int t, std::ostream & o) { return d >= D ? x.template erase<D>(s, t, o) : Every<D - 1>::erase(x, s, d, t, o); } };
template<> struct Every<-1> { template<class X> static void check(X &) {} template<class X> static bool erase(X &, vh::Src &, int, int, std::ostream &) { return false; } };

template<class M> void run(vh::Src & s, vh::Case & c) {
  Mod<M> m; typedef World<M> W; m.w.start(s, (int)W::TD == 3 ? 2 : 3, 4, 40); long ops = s.size(2, 28); bool overlap = false, erased = false; m.sync(); for (size_t i = 0; i < m.w.pts.size(); ++i) m.allmesh[0].insert(Key(1, (int)i));
  int erase_pct = s.chance(50) ? 25 : 0; int every = (int)s.range(1, 6);
  for (long i = 0; i < ops; ++i) {
    if (m.w.seg.size() < 6 && s.chance(5)) { m.w.sgn.make_segment(); m.w.seg.push_back(HostM()); c.desc << "S "; }
    else if (!m.w.seg.empty() && s.chance(erase_pct)) { int t = (int)s.draw(m.w.seg.size()); erased |= Every<W::TD>::erase(m, s, (int)s.draw(W::TD + 1), t, c.desc); }
    else if (!m.w.seg.empty() && erase_pct && s.chance(4)) { int t = (int)s.draw(m.w.seg.size()); typename W::SH sh = m.w.sgn[t]; viennagrid::clear(sh); for (auto & k : m.el[(size_t)t]) k.clear(); c.desc << "X" << t << " "; erased = true; }
    else if (!m.w.seg.empty() && erase_pct && s.chance(3)) { m.w.start_over(s); for (auto & e : m.el) for (auto & k : e) k.clear(); c.desc << "C "; erased = true; }
    else if (!m.w.cells.empty() && !m.w.seg.empty() && s.chance(8)) { // one element into several segments at once
      std::vector<int> ids; for (size_t t = 0; t < m.w.seg.size(); ++t) if (s.chance(50)) ids.push_back((int)t); size_t q = (size_t)s.draw(m.w.cells.size());
      if (s.chance(50)) viennagrid::add(m.w.sgn, ids.begin(), ids.end(), m.w.ch[q]); else viennagrid::add(m.w.sgn, ids.begin(), ids.end(), viennagrid::dereference_handle(m.w.mesh, m.w.ch[q])); for (int t : ids) m.w.put_log(t, W::TD, m.w.cells[q]); c.desc << "M" << str(ids) << " ";
    }
    else c.desc << m.w.step(s) << " ";
    m.sync(); if (i % every == 0) Every<W::TD>::check(m); if (!m.w.seg.empty() && s.chance(30)) m.queries(s, (int)s.draw(m.w.seg.size()));
    for (auto const & k : m.allmesh[W::TD]) { int n = 0; for (auto & e : m.el) n += (int)e[W::TD].count(k); if (n > 1) overlap = true; }
  }
  Every<W::TD>::check(m); for (size_t t = 0; t < m.w.seg.size(); ++t) m.queries(s, (int)t); c.hit(overlap || erased); if (overlap) c.label("overlap"); if (erased) c.label("erased"); m.w.describe(c.desc);
}
