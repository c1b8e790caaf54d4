#include "c02.hpp"
VH_REG(r, "quad3", orient<viennagrid::quadrilateral_3d_mesh>, 1);
