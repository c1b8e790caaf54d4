#include "c23.hpp"
VH_REG(a, "hexahedral_3d_io", run_io<viennagrid::hexahedral_3d_mesh>, 1);
VH_REG(b, "hexahedral_3d_foreign", run_foreign<viennagrid::hexahedral_3d_mesh>, 0.5);
