#include "c01.hpp"
VH_REG(r, "quad3", (history<viennagrid::quadrilateral_3d_mesh, true>), 0.5);
