#include "delhist.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
using namespace seghist;

template<class R> KeySet range_keys(R r, char const * what) {
  KeySet k; size_t n = 0; for (auto it = r.begin(); it != r.end(); ++it, ++n) VH_CHECK(k.insert(sorted(vids(*it))).second, what << ": element " << str(sorted(vids(*it))) << " listed twice");
  VH_CHECK(r.size() == n, what << ": size() is " << r.size() << " but " << n << " visited"); VH_CHECK(r.empty() == (n == 0), what << ": empty() wrong"); return k;
}
inline void same(KeySet const & got, KeySet const & exp, std::string const & what) {
  for (auto const & k : exp) VH_CHECK(got.count(k), what << ": " << str(k) << " missing"); for (auto const & k : got) VH_CHECK(exp.count(k), what << ": " << str(k) << " should not be listed");
}
// forms of querying: 0 handle, 1 range constructor with element, 2 const handle, 3 const range
template<int DE, int DC, class W, class Host> void cob(vh::Src & s, W & w, Host & host, HostM const & hm) {
  typedef typename W::CT CT; typedef typename TagOf<CT, DE>::type ET; typedef typename TagOf<CT, DC>::type C; Host const & chost = host;
  KeySet ek = w.keys(hm, DE), ck = w.keys(hm, DC); if (ek.empty()) return; std::map<Key, KeySet> exp; for (auto const & k : ck) for (auto const & b : w.bnd(k, DC, DE)) exp[b].insert(k);
  int form = (int)s.draw(4); size_t only = s.chance(30) ? (size_t)s.draw(ek.size()) : (size_t)-1, n = 0;
  typedef typename viennagrid::result_of::element_range<Host, ET>::type R; R r(host);
  for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it, ++n) {
    if (only != (size_t)-1 && n != only) continue;
    Key k = sorted(vids(*it)); std::ostringstream wh; wh << "co-boundary of dimension " << DC << " of " << str(k); KeySet got;
    if (form == 0) got = range_keys(viennagrid::coboundary_elements<ET, C>(host, it.handle()), wh.str().c_str());
    else if (form == 1) { typedef typename viennagrid::result_of::coboundary_range<Host, ET, C>::type CR; CR cr(host, *it); got = range_keys(cr, wh.str().c_str()); }
    else if (form == 2) got = range_keys(viennagrid::coboundary_elements<ET, C>(chost, it.handle()), wh.str().c_str());
    else { typedef typename viennagrid::result_of::const_coboundary_range<Host, ET, C>::type CR; CR cr(chost, it.handle()); got = range_keys(cr, wh.str().c_str()); }
    same(got, exp[k], wh.str());
  }
}
template<int DE, int DC, class W, class Host> void nbr(vh::Src & s, W & w, Host & host, HostM const & hm) {   // neighbours of dimension DE sharing an element of dimension DC < DE
  typedef typename W::CT CT; typedef typename TagOf<CT, DE>::type ET; typedef typename TagOf<CT, DC>::type C; Host const & chost = host;
  KeySet ek = w.keys(hm, DE); if (ek.empty()) return; std::map<Key, KeySet> byc; std::map<Key, KeySet> exp; for (auto const & k : ek) for (auto const & b : w.bnd(k, DE, DC)) byc[b].insert(k);
  for (auto const & b : byc) for (auto const & x : b.second) for (auto const & y : b.second) if (x != y) exp[x].insert(y);
  int form = (int)s.draw(4); size_t only = s.chance(30) ? (size_t)s.draw(ek.size()) : (size_t)-1, n = 0;
  typedef typename viennagrid::result_of::element_range<Host, ET>::type R; R r(host);
  for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it, ++n) {
    if (only != (size_t)-1 && n != only) continue;
    Key k = sorted(vids(*it)); std::ostringstream wh; wh << "neighbours of " << str(k) << " over dimension " << DC; KeySet got;
    if (form == 0) got = range_keys(viennagrid::neighbor_elements<ET, C>(host, it.handle()), wh.str().c_str());
    else if (form == 1) { typedef typename viennagrid::result_of::neighbor_range<Host, ET, C>::type NR; NR nr(host, *it); got = range_keys(nr, wh.str().c_str()); }
    else if (form == 2) got = range_keys(viennagrid::neighbor_elements<ET, C>(chost, it.handle()), wh.str().c_str());
    else { typedef typename viennagrid::result_of::const_neighbor_range<Host, ET, C>::type NR; NR nr(chost, it.handle()); got = range_keys(nr, wh.str().c_str()); }
    same(got, exp[k], wh.str());
  }
}
template<int TD> struct Q;
template<> struct Q<1> { template<class W, class H> static void run(vh::Src & s, W & w, H & h, HostM const & m) { if (s.chance(50)) cob<0, 1>(s, w, h, m); else nbr<1, 0>(s, w, h, m); } };
template<> struct Q<2> { template<class W, class H> static void run(vh::Src & s, W & w, H & h, HostM const & m) { switch (s.draw(6)) { case 0: cob<0, 1>(s, w, h, m); break; case 1: cob<0, 2>(s, w, h, m); break; case 2: cob<1, 2>(s, w, h, m); break; case 3: nbr<1, 0>(s, w, h, m); break; case 4: nbr<2, 0>(s, w, h, m); break; default: nbr<2, 1>(s, w, h, m); } } };
template<> struct Q<3> { template<class W, class H> static void run(vh::Src & s, W & w, H & h, HostM const & m) { switch (s.draw(12)) { case 0: cob<0, 1>(s, w, h, m); break; case 1: cob<0, 2>(s, w, h, m); break; case 2: cob<0, 3>(s, w, h, m); break; case 3: cob<1, 2>(s, w, h, m); break; case 4: cob<1, 3>(s, w, h, m); break; case 5: cob<2, 3>(s, w, h, m); break;
  case 6: nbr<1, 0>(s, w, h, m); break; case 7: nbr<2, 0>(s, w, h, m); break; case 8: nbr<2, 1>(s, w, h, m); break; case 9: nbr<3, 0>(s, w, h, m); break; case 10: nbr<3, 1>(s, w, h, m); break; default: nbr<3, 2>(s, w, h, m); } } };

template<class M> void run(vh::Src & s, vh::Case & c) {
  typedef World<M> W; W w; w.start(s, (int)W::TD == 3 ? 2 : 3, 3, 30); long ops = s.size(2, 26); bool queried = false, changed_after = false;
  for (long i = 0; i < ops; ++i) {
    if (s.chance(45) && !w.cells.empty()) {
      int t = w.target(s, 60); if (changed_after && queried) c.hit(); c.desc << "Q" << t << " ";
      if (t < 0) Q<W::TD>::run(s, w, w.mesh, w.mh); else { typename W::SH sh = w.sgn[t]; Q<W::TD>::run(s, w, sh, w.seg[(size_t)t]); }
      queried = true; changed_after = false;
    } else { c.desc << (s.chance(15) ? w.take_out(s) : w.step(s)) << " "; changed_after = true; }
  }
  for (int k = 0; k < 6; ++k) { if (queried && changed_after) c.hit(); Q<W::TD>::run(s, w, w.mesh, w.mh); }
  for (size_t t = 0; t < w.seg.size(); ++t) { typename W::SH sh = w.sgn[(int)t]; for (int k = 0; k < 2; ++k) Q<W::TD>::run(s, w, sh, w.seg[t]); }
  w.describe(c.desc);
}

// insertions, deletions and restored copies of a mesh interleaved with queries
template<class M> void shrinking(vh::Src & s, vh::Case & c) {
  delhist::Del<M> d; delhist::DelView<M> w(d); HostM none; int erased = 0, after = 0, q = 0; size_t seen = 0;
  delhist::history(s, c, d, s.chance(50), 25, [&](long) { if (s.chance(60)) { Q<delhist::DelView<M>::TD>::run(s, w, d.mesh, none); if (q++ && erased) c.hit(); } }, erased, after); (void)seen;
  for (int k = 0; k < 4; ++k) Q<delhist::DelView<M>::TD>::run(s, w, d.mesh, none); c.hit(q && erased);
}
