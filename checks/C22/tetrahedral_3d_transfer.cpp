#include "c22.hpp"
VH_REG(a, "tetrahedral_3d_transfer", run_transfer<viennagrid::tetrahedral_3d_mesh>, 0.5);
