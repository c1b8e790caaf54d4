#include "c23.hpp"
VH_REG(a, "triangular_2d_io", run_io<viennagrid::triangular_2d_mesh>, 1);
VH_REG(b, "triangular_2d_foreign", run_foreign<viennagrid::triangular_2d_mesh>, 0.5);
