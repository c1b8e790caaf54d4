#include "c15.hpp"
VH_REG(a, "polar_polar", (pair_<Po, Po>), 1);
VH_REG(b, "cartesian_polar", (pair_<C2, Po>), 1);
VH_REG(d, "polar_cartesian", (pair_<Po, C2>), 1);
