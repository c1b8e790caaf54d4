#include "c15.hpp"
VH_REG(a, "spherical_spherical", (pair_<Sp, Sp>), 1);
VH_REG(b, "cartesian_spherical", (pair_<C3, Sp>), 1);
VH_REG(d, "spherical_cylindrical", (pair_<Sp, Cy>), 1);
