#include "c01.hpp"
VH_REG(r, "tri3", (history<viennagrid::triangular_3d_mesh, true>), 0.5);
