#include "c13.hpp"
VH_REG(a, "line_3d_cell", cell<viennagrid::line_3d_mesh>, 1);
VH_REG(b, "line_3d_mesh", mesh_<viennagrid::line_3d_mesh>, 0.3);
