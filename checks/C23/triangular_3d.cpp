#include "c23.hpp"
VH_REG(a, "triangular_3d_io", run_io<viennagrid::triangular_3d_mesh>, 1);
VH_REG(b, "triangular_3d_foreign", run_foreign<viennagrid::triangular_3d_mesh>, 0.5);
