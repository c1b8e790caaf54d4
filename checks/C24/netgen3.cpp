#include "netgen.hpp"
VH_REG(a, "netgen_tetrahedral_3d", run<viennagrid::tetrahedral_3d_mesh>, 1);
VH_REG(b, "netgen_hexahedral_3d", run<viennagrid::hexahedral_3d_mesh>, 0.7);
VH_REG(d, "netgen_quadrilateral_3d", run<viennagrid::quadrilateral_3d_mesh>, 0.3);
