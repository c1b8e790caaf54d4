#include "c25.hpp"
VH_REG(a, "line_3d_opendx", opendx<viennagrid::line_3d_mesh>, 1);
VH_REG(b, "line_3d_vmesh", vmesh<viennagrid::line_3d_mesh>, 0.3);
