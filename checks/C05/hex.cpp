#include "c05.hpp"
VH_REG(r, "hex", run<viennagrid::hexahedral_3d_mesh>, 1);
VH_REG(sh, "hex-shrinking", shrinking<viennagrid::hexahedral_3d_mesh>, 1);
