#include "c14.hpp"
VH_REG(a, "quadrilateral_3d", run<viennagrid::quadrilateral_3d_mesh>, 1);
