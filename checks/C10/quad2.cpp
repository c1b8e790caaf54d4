#include "c10.hpp"
VH_REG(r, "quad2", run<viennagrid::quadrilateral_2d_mesh>, 1);
