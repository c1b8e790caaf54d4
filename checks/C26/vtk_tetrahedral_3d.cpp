#include "vtk.hpp"
VH_REG(a, "vtk_tetrahedral_3d", vtk<viennagrid::tetrahedral_3d_mesh>, 1);
