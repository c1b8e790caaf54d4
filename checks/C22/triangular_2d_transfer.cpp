#include "c22.hpp"
VH_REG(a, "triangular_2d_transfer", run_transfer<viennagrid::triangular_2d_mesh>, 0.5);
