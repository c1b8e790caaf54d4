#include "c01.hpp"
VH_REG(r, "thintri", (history<viennagrid::thin_triangular_2d_mesh, false>), 0.3);
