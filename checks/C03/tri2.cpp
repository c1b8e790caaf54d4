#include "c03.hpp"
VH_REG(r, "tri2", ids<viennagrid::triangular_2d_mesh>, 1);
