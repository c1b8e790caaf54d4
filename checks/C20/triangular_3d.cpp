#include "c20.hpp"
VH_REG(a, "triangular_3d", run<viennagrid::triangular_3d_mesh>, 1);
