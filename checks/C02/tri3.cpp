#include "c02.hpp"
VH_REG(r, "tri3", orient<viennagrid::triangular_3d_mesh>, 1);
