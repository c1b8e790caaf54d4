#include "c13.hpp"
VH_REG(a, "line_1d_cell", cell<viennagrid::line_1d_mesh>, 1);
VH_REG(b, "line_1d_mesh", mesh_<viennagrid::line_1d_mesh>, 0.3);
