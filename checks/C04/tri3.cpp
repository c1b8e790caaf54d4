#include "c04.hpp"
VH_REG(r, "tri3", run<viennagrid::triangular_3d_mesh>, 1);
VH_REG(sh, "tri3-shrinking", shrinking<viennagrid::triangular_3d_mesh>, 1);
