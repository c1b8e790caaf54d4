#include "c25.hpp"
VH_REG(a, "hexahedral_3d_opendx", opendx<viennagrid::hexahedral_3d_mesh>, 1);
VH_REG(b, "hexahedral_3d_vmesh", vmesh<viennagrid::hexahedral_3d_mesh>, 0.3);
