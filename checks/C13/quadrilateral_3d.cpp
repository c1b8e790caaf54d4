#include "c13.hpp"
VH_REG(a, "quadrilateral_3d_cell", cell<viennagrid::quadrilateral_3d_mesh>, 1);
VH_REG(b, "quadrilateral_3d_mesh", mesh_<viennagrid::quadrilateral_3d_mesh>, 0.3);
