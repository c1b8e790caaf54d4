#include "delhist.hpp"
#include "viennagrid/algorithm/boundary.hpp"
using namespace seghist;

template<class W> struct Chk {
  typedef typename W::M M; typedef typename W::CT CT; enum { TD = W::TD };
  // boundary elements of dimension d of a host
  static KeySet expected(W const & w, HostM const & h, int d) {
    KeySet r; for (auto const & f : w.facet_count(h)) if (f.second % 2 == 1) { if (d == (int)TD - 1) r.insert(f.first); else { KeySet b = w.bnd(f.first, (int)TD - 1, d); r.insert(b.begin(), b.end()); } }
    return r;
  }
  template<int D, class Host> static void dim(vh::Src & s, W & w, Host & host, HostM const & hm) {
    typedef typename TagOf<CT, D>::type ET; KeySet exp = expected(w, hm, D), inhost = w.keys(hm, D); Host const & ch = host;
    bool foreign = s.chance(40); size_t n = 0, tot = viennagrid::elements<ET>(w.mesh).size(); size_t only = s.chance(25) && tot ? (size_t)s.draw(tot) : (size_t)-1;
    bool rev = s.chance(20); std::vector<typename viennagrid::result_of::element<M, ET>::type const *> el; for (auto & e : viennagrid::elements<ET>(w.mesh)) el.push_back(&e); if (rev) std::reverse(el.begin(), el.end());
    for (auto const * e : el) {
      size_t i = n++; if (only != (size_t)-1 && i != only) continue; Key k = sorted(vids(*e)); if (!foreign && !inhost.count(k)) continue;
      bool got = viennagrid::is_boundary(ch, *e); VH_CHECK(got == (exp.count(k) > 0), "is_boundary of element " << str(k) << " is " << got);
    }
  }
};
template<int TD> struct Q;
template<> struct Q<1> { template<class W, class H> static void run(vh::Src & s, W & w, H & h, HostM const & m) { Chk<W>::template dim<0>(s, w, h, m); } };
template<> struct Q<2> { template<class W, class H> static void run(vh::Src & s, W & w, H & h, HostM const & m) { if (s.chance(50)) Chk<W>::template dim<1>(s, w, h, m); else Chk<W>::template dim<0>(s, w, h, m); } };
template<> struct Q<3> { template<class W, class H> static void run(vh::Src & s, W & w, H & h, HostM const & m) { switch (s.draw(3)) { case 0: Chk<W>::template dim<2>(s, w, h, m); break; case 1: Chk<W>::template dim<1>(s, w, h, m); break; default: Chk<W>::template dim<0>(s, w, h, m); } } };

// is an element one of the boundary elements of a host element
template<int D, class M> void pairwise(vh::Src & s, World<M> & w) {
  typedef typename TagOf<typename World<M>::CT, D>::type ET; M & mesh = w.mesh; if (w.cells.empty()) return; size_t pick = (size_t)s.draw(w.cells.size());
  auto const & h = viennagrid::dereference_handle(mesh, w.ch[pick]); KeySet exp = w.bnd(sorted(w.cells[pick]), (int)World<M>::TD, D);
  for (auto & e : viennagrid::elements<ET>(mesh)) VH_CHECK(viennagrid::is_boundary(h, e) == (exp.count(sorted(vids(e))) > 0), "is_boundary(cell " << str(w.cells[pick]) << ", element " << str(vids(e)) << ") wrong");
}
template<class M> void run(vh::Src & s, vh::Case & c) {
  typedef World<M> W; W w; w.start(s, (int)W::TD == 3 ? 2 : 4, 3, 45); long ops = s.size(2, 30); bool queried = false, changed = false;
  auto q = [&](int t) { if (t < 0) Q<W::TD>::run(s, w, w.mesh, w.mh); else { typename W::SH sh = w.sgn[t]; Q<W::TD>::run(s, w, sh, w.seg[(size_t)t]); } };
  for (long i = 0; i < ops; ++i) {
    if (s.chance(40) && !w.cells.empty()) { int t = w.target(s, 60); if (queried && changed) c.hit(); c.desc << "Q" << t << " "; q(t); queried = true; changed = false; }
    else { c.desc << (s.chance(15) ? w.take_out(s) : w.step(s)) << " "; changed = true; }
  }
  for (int k = 0; k < 3; ++k) { if (queried && changed) c.hit(); q(-1); } for (size_t t = 0; t < w.seg.size(); ++t) for (int k = 0; k < 2; ++k) q((int)t);
  pairwise<(int)W::TD - 1>(s, w); pairwise<0>(s, w);
  w.describe(c.desc);
}

template<class M> void shrinking(vh::Src & s, vh::Case & c) {
  delhist::Del<M> d; delhist::DelView<M> w(d); HostM none; int erased = 0, after = 0, q = 0;
  delhist::history(s, c, d, s.chance(50), 25, [&](long) { if (s.chance(60)) { Q<delhist::DelView<M>::TD>::run(s, w, d.mesh, none); if (q++ && erased) c.hit(); } }, erased, after);
  for (int k = 0; k < 3; ++k) Q<delhist::DelView<M>::TD>::run(s, w, d.mesh, none); c.hit(q && erased);
}
