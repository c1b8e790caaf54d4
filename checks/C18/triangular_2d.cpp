#include "c18.hpp"
VH_REG(a, "triangular_2d", run<viennagrid::triangular_2d_mesh>, 1);
