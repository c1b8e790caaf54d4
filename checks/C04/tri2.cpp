#include "c04.hpp"
VH_REG(r, "tri2", run<viennagrid::triangular_2d_mesh>, 1);
VH_REG(sh, "tri2-shrinking", shrinking<viennagrid::triangular_2d_mesh>, 1);
