#include "c02.hpp"
VH_REG(r, "tet", orient<viennagrid::tetrahedral_3d_mesh>, 1);
