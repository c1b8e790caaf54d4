#include "c19.hpp"
VH_REG(a, "quadrilateral_3d", run<viennagrid::quadrilateral_3d_mesh>, 1);
VH_REG(b, "quadrilateral_3d_segment", run_segment<viennagrid::quadrilateral_3d_mesh>, 0.5);
