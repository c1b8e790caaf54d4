#include "c10.hpp"
VH_REG(r, "hex", run<viennagrid::hexahedral_3d_mesh>, 1);
