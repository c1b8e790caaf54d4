#include "c02.hpp"
VH_REG(r, "hex", orient<viennagrid::hexahedral_3d_mesh>, 1);
