#include "c13.hpp"
VH_REG(a, "hexahedral_3d_cell", cell<viennagrid::hexahedral_3d_mesh>, 1);
VH_REG(b, "hexahedral_3d_mesh", mesh_<viennagrid::hexahedral_3d_mesh>, 0.3);
