#include "c17.hpp"
VH_REG(a, "quadrilateral_2d", run<viennagrid::quadrilateral_2d_mesh>, 1);
