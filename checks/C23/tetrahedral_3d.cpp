#include "c23.hpp"
VH_REG(a, "tetrahedral_3d_io", run_io<viennagrid::tetrahedral_3d_mesh>, 1);
VH_REG(b, "tetrahedral_3d_foreign", run_foreign<viennagrid::tetrahedral_3d_mesh>, 0.5);
