#include "c13.hpp"
VH_REG(a, "tetrahedral_3d_cell", cell<viennagrid::tetrahedral_3d_mesh>, 1);
VH_REG(b, "tetrahedral_3d_mesh", mesh_<viennagrid::tetrahedral_3d_mesh>, 0.3);
