#include "refchk.hpp"
VH_REG(r, "tri3", rc_::run<viennagrid::triangular_3d_mesh>, 1);
