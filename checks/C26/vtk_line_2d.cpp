#include "vtk.hpp"
VH_REG(a, "vtk_line_2d", vtk<viennagrid::line_2d_mesh>, 1);
