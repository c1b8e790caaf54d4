#include "c22.hpp"
VH_REG(a, "triangular_3d_data", run_data<viennagrid::triangular_3d_mesh>, 1);
