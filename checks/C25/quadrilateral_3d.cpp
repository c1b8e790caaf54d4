#include "c25.hpp"
VH_REG(a, "quadrilateral_3d_opendx", opendx<viennagrid::quadrilateral_3d_mesh>, 1);
VH_REG(b, "quadrilateral_3d_vmesh", vmesh<viennagrid::quadrilateral_3d_mesh>, 0.3);
