#include "c22.hpp"
VH_REG(a, "quadrilateral_2d_data", run_data<viennagrid::quadrilateral_2d_mesh>, 1);
