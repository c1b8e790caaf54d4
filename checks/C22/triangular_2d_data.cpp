#include "c22.hpp"
VH_REG(a, "triangular_2d_data", run_data<viennagrid::triangular_2d_mesh>, 1);
