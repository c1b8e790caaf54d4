#include "vtk.hpp"
VH_REG(a, "vtk_hexahedral_3d", vtk<viennagrid::hexahedral_3d_mesh>, 1);
