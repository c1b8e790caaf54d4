#include "c02.hpp"
VH_REG(r, "tri2", orient<viennagrid::triangular_2d_mesh>, 1);
