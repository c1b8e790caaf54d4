#include "c15.hpp"
VH_REG(a, "cylindrical_cylindrical", (pair_<Cy, Cy>), 1);
VH_REG(b, "cylindrical_cartesian", (pair_<Cy, C3>), 1);
