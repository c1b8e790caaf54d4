#include "c20.hpp"
VH_REG(a, "tetrahedral_3d", run<viennagrid::tetrahedral_3d_mesh>, 1);
