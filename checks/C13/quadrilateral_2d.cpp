#include "c13.hpp"
VH_REG(a, "quadrilateral_2d_cell", cell<viennagrid::quadrilateral_2d_mesh>, 1);
VH_REG(b, "quadrilateral_2d_mesh", mesh_<viennagrid::quadrilateral_2d_mesh>, 0.3);
