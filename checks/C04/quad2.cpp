#include "c04.hpp"
VH_REG(r, "quad2", run<viennagrid::quadrilateral_2d_mesh>, 1);
VH_REG(sh, "quad2-shrinking", shrinking<viennagrid::quadrilateral_2d_mesh>, 1);
