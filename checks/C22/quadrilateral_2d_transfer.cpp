#include "c22.hpp"
VH_REG(a, "quadrilateral_2d_transfer", run_transfer<viennagrid::quadrilateral_2d_mesh>, 0.5);
