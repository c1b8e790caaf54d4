#include "c13.hpp"
VH_REG(a, "triangular_3d_cell", cell<viennagrid::triangular_3d_mesh>, 1);
VH_REG(b, "triangular_3d_mesh", mesh_<viennagrid::triangular_3d_mesh>, 0.3);
