#include "c06.hpp"
VH_REG(r, "tri2", run<viennagrid::triangular_2d_mesh>, 1);
