#include "c01.hpp"
VH_REG(r, "hex", (history<viennagrid::hexahedral_3d_mesh, true>), 1);
