#include "c20.hpp"
VH_REG(a, "line_1d", run<viennagrid::line_1d_mesh>, 1);
