#include "c01.hpp"
VH_REG(r, "quad2", (history<viennagrid::quadrilateral_2d_mesh, true>), 1);
