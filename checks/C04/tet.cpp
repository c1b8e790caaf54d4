#include "c04.hpp"
VH_REG(r, "tet", run<viennagrid::tetrahedral_3d_mesh>, 1);
VH_REG(sh, "tet-shrinking", shrinking<viennagrid::tetrahedral_3d_mesh>, 1);
