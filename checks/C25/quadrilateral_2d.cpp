#include "c25.hpp"
VH_REG(a, "quadrilateral_2d_opendx", opendx<viennagrid::quadrilateral_2d_mesh>, 1);
VH_REG(b, "quadrilateral_2d_vmesh", vmesh<viennagrid::quadrilateral_2d_mesh>, 0.3);
