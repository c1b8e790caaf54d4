#include "c13.hpp"
VH_REG(a, "triangular_2d_cell", cell<viennagrid::triangular_2d_mesh>, 1);
VH_REG(b, "triangular_2d_mesh", mesh_<viennagrid::triangular_2d_mesh>, 0.3);
