#include "c03.hpp"
VH_REG(r, "hex", ids<viennagrid::hexahedral_3d_mesh>, 1);
