#include "c06.hpp"
VH_REG(r, "line1", run<viennagrid::line_1d_mesh>, 1);
