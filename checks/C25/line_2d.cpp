#include "c25.hpp"
VH_REG(a, "line_2d_opendx", opendx<viennagrid::line_2d_mesh>, 1);
VH_REG(b, "line_2d_vmesh", vmesh<viennagrid::line_2d_mesh>, 0.3);
