#include "c14.hpp"
VH_REG(a, "line_3d", run<viennagrid::line_3d_mesh>, 1);
