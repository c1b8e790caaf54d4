#include "c19.hpp"
VH_REG(a, "hexahedral_3d", run<viennagrid::hexahedral_3d_mesh>, 1);
VH_REG(b, "hexahedral_3d_segment", run_segment<viennagrid::hexahedral_3d_mesh>, 0.5);
