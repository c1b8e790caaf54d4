#include "c25.hpp"
VH_REG(a, "triangular_3d_opendx", opendx<viennagrid::triangular_3d_mesh>, 1);
VH_REG(b, "triangular_3d_vmesh", vmesh<viennagrid::triangular_3d_mesh>, 0.3);
