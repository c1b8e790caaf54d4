#include "c23.hpp"
VH_REG(a, "quadrilateral_2d_io", run_io<viennagrid::quadrilateral_2d_mesh>, 1);
VH_REG(b, "quadrilateral_2d_foreign", run_foreign<viennagrid::quadrilateral_2d_mesh>, 0.5);
