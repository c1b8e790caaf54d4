#include "c13.hpp"
VH_REG(a, "line_2d_cell", cell<viennagrid::line_2d_mesh>, 1);
VH_REG(b, "line_2d_mesh", mesh_<viennagrid::line_2d_mesh>, 0.3);
