#include "c25.hpp"
VH_REG(a, "tetrahedral_3d_opendx", opendx<viennagrid::tetrahedral_3d_mesh>, 1);
VH_REG(b, "tetrahedral_3d_vmesh", vmesh<viennagrid::tetrahedral_3d_mesh>, 0.3);
