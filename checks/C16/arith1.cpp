#include "c16.hpp"
VH_REG(a, "arith_cartesian1", arith<C1>, 1);
VH_REG(b, "arith_cartesian2", arith<C2>, 1);
VH_REG(d, "arith_cartesian3", arith<C3>, 1);
