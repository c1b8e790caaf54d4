#include "c22.hpp"
VH_REG(a, "tetrahedral_3d_data", run_data<viennagrid::tetrahedral_3d_mesh>, 1);
