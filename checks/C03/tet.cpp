#include "c03.hpp"
VH_REG(r, "tet", ids<viennagrid::tetrahedral_3d_mesh>, 1);
