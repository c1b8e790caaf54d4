#include "c09.hpp"
VH_REG(a, "pool-thintri", (pool<viennagrid::thin_triangular_2d_mesh, false>), 0.5);
VH_REG(b, "pool-thintet", (pool<viennagrid::thin_tetrahedral_3d_mesh, false>), 0.5);
