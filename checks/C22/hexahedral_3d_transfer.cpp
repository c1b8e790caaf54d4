#include "c22.hpp"
VH_REG(a, "hexahedral_3d_transfer", run_transfer<viennagrid::hexahedral_3d_mesh>, 0.5);
