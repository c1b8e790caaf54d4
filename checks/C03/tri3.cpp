#include "c03.hpp"
VH_REG(r, "tri3", ids<viennagrid::triangular_3d_mesh>, 1);
