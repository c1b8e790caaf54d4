#include "c07.hpp"
VH_REG(r, "tri3", run<viennagrid::triangular_3d_mesh>, 1);
