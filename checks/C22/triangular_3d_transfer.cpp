#include "c22.hpp"
VH_REG(a, "triangular_3d_transfer", run_transfer<viennagrid::triangular_3d_mesh>, 0.5);
