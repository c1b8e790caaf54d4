#include "c03.hpp"
VH_REG(r, "line2", ids<viennagrid::line_2d_mesh>, 1);
