#include "c15.hpp"
VH_REG(a, "C2", (pair_<C2, C2>), 1);
