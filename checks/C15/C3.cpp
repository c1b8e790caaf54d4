#include "c15.hpp"
VH_REG(a, "C3", (pair_<C3, C3>), 1);
