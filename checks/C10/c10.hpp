#include "delhist.hpp"
using namespace delhist;
template<class M> void run(vh::Src & s, vh::Case & c) {
  Del<M> m; int erased = 0, after = 0, every = (int)s.range(1, 4); history(s, c, m, s.chance(40), 30, [&](long i) { if (i % every == 0) m.check(); }, erased, after);
  m.check(); m.queries(s); c.hit(erased >= 2 && after >= 1); if (m.cells.empty()) c.label("no cell left");
}
