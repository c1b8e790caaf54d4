#include "c14.hpp"
VH_REG(a, "hexahedral_3d", run<viennagrid::hexahedral_3d_mesh>, 1);
