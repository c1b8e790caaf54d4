#include "vtk.hpp"
VH_REG(a, "vtk_quadrilateral_3d", vtk<viennagrid::quadrilateral_3d_mesh>, 1);
