#include "c15.hpp"
VH_REG(a, "C1", (pair_<C1, C1>), 1);
