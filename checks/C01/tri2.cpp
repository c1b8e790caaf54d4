#include "c01.hpp"
VH_REG(r, "tri2", (history<viennagrid::triangular_2d_mesh, true>), 1);
