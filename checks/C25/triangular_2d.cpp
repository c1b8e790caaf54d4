#include "c25.hpp"
VH_REG(a, "triangular_2d_opendx", opendx<viennagrid::triangular_2d_mesh>, 1);
VH_REG(b, "triangular_2d_vmesh", vmesh<viennagrid::triangular_2d_mesh>, 0.3);
