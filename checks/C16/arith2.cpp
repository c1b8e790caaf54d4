#include "c16.hpp"
VH_REG(a, "arith_polar", arith<Po>, 1);
VH_REG(b, "arith_spherical", arith<Sp>, 1);
VH_REG(d, "arith_cylindrical", arith<Cy>, 1);
