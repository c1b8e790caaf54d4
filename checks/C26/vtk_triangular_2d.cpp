#include "vtk.hpp"
VH_REG(a, "vtk_triangular_2d", vtk<viennagrid::triangular_2d_mesh>, 1);
