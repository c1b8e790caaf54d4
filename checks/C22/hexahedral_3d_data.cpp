#include "c22.hpp"
VH_REG(a, "hexahedral_3d_data", run_data<viennagrid::hexahedral_3d_mesh>, 1);
