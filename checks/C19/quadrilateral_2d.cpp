#include "c19.hpp"
VH_REG(a, "quadrilateral_2d", run<viennagrid::quadrilateral_2d_mesh>, 1);
VH_REG(b, "quadrilateral_2d_segment", run_segment<viennagrid::quadrilateral_2d_mesh>, 0.5);
