#include "c20.hpp"
VH_REG(a, "line_2d", run<viennagrid::line_2d_mesh>, 1);
