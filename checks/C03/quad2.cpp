#include "c03.hpp"
VH_REG(r, "quad2", ids<viennagrid::quadrilateral_2d_mesh>, 1);
