#include "c23.hpp"
VH_REG(a, "quadrilateral_3d_io", run_io<viennagrid::quadrilateral_3d_mesh>, 1);
VH_REG(b, "quadrilateral_3d_foreign", run_foreign<viennagrid::quadrilateral_3d_mesh>, 0.5);
