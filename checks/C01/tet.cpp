#include "c01.hpp"
VH_REG(r, "tet", (history<viennagrid::tetrahedral_3d_mesh, true>), 1.5);
