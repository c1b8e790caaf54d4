#include "c06.hpp"
VH_REG(r, "tet", run<viennagrid::tetrahedral_3d_mesh>, 1);
