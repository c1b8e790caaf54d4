#include "c25.hpp"
VH_REG(a, "line_1d_opendx", opendx<viennagrid::line_1d_mesh>, 1);
VH_REG(b, "line_1d_vmesh", vmesh<viennagrid::line_1d_mesh>, 0.3);
