#include "c02.hpp"
VH_REG(r, "quad2", orient<viennagrid::quadrilateral_2d_mesh>, 1);
