#include "c01.hpp"
VH_REG(r, "thintet", (history<viennagrid::thin_tetrahedral_3d_mesh, false>), 0.3);
