#include "c06.hpp"
VH_REG(r, "line2", run<viennagrid::line_2d_mesh>, 1);
