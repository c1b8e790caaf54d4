#include "seghist.hpp"
#include "viennagrid/algorithm/interface.hpp"
using namespace seghist;

template<class M> struct Chk {
  typedef World<M> W; typedef typename W::CT CT; enum { TD = W::TD };
  static KeySet expected(W const & w, HostM const & a, HostM const & b, int d) {
    std::map<Key, int> fa = w.facet_count(a), fb = w.facet_count(b); KeySet r;
    for (auto const & f : fa) if (f.second % 2 == 1 && fb.count(f.first) && fb[f.first] % 2 == 1) { if (d == (int)TD - 1) r.insert(f.first); else { KeySet x = w.bnd(f.first, (int)TD - 1, d); r.insert(x.begin(), x.end()); } }
    return r;
  }
  template<int D> static size_t dim(vh::Src & s, W & w, int i, int j) {
    typedef typename TagOf<CT, D>::type ET; KeySet exp = expected(w, w.seg[(size_t)i], w.seg[(size_t)j], D); typename W::SH a = w.sgn[i], b = w.sgn[j];
    size_t n = 0, tot = viennagrid::elements<ET>(w.mesh).size(); size_t only = s.chance(25) && tot ? (size_t)s.draw(tot) : (size_t)-1;
    for (auto & e : viennagrid::elements<ET>(w.mesh)) { size_t k0 = n++; if (only != (size_t)-1 && k0 != only) continue; Key k = sorted(vids(e));
      bool got = viennagrid::is_interface(a, b, e); VH_CHECK(got == (exp.count(k) > 0), "is_interface(segment " << i << ", segment " << j << ", " << str(k) << ") is " << got); }
    return exp.size();
  }
};
template<int TD> struct Q;
template<> struct Q<1> { template<class M> static size_t run(vh::Src & s, World<M> & w, int a, int b) { return Chk<M>::template dim<0>(s, w, a, b); } };
template<> struct Q<2> { template<class M> static size_t run(vh::Src & s, World<M> & w, int a, int b) { return s.chance(50) ? Chk<M>::template dim<1>(s, w, a, b) : Chk<M>::template dim<0>(s, w, a, b); } };
template<> struct Q<3> { template<class M> static size_t run(vh::Src & s, World<M> & w, int a, int b) { switch (s.draw(3)) { case 0: return Chk<M>::template dim<2>(s, w, a, b); case 1: return Chk<M>::template dim<1>(s, w, a, b); default: return Chk<M>::template dim<0>(s, w, a, b); } } };

template<class M> void run(vh::Src & s, vh::Case & c) {
  typedef World<M> W; W w; w.start(s, (int)W::TD == 3 ? 2 : 4, 4, 60); if (w.seg.size() < 2) { while (w.seg.size() < 2) { w.sgn.make_segment(); w.seg.resize(w.seg.size() + 1); } }
  long ops = s.size(3, 34); bool queried = false, changed = false; size_t found = 0;
  auto q = [&]() { int a = (int)s.draw(w.seg.size()), b = (int)s.draw(w.seg.size() - 1); if (b >= a) ++b; c.desc << "Q" << a << b << " "; found += Q<W::TD>::run(s, w, a, b); };
  for (long i = 0; i < ops; ++i) {
    if (s.chance(35) && !w.cells.empty()) { if (queried && changed && found) c.hit(); q(); queried = true; changed = false; }
    else if (s.chance(70)) { int t = (int)s.draw(w.seg.size()); if (s.chance(25)) { w.add_cell_to(s, t); c.desc << "A" << t << " "; } else { w.cell(s, t); c.desc << "C" << t << " "; } changed = true; }
    else { c.desc << (s.chance(40) ? w.take_out(s) : w.step(s)) << " "; changed = true; }
  }
  for (int k = 0; k < 4; ++k) { q(); if (queried && changed && found) c.hit(); }
  w.describe(c.desc);
}
