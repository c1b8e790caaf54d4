#include "refchk.hpp"
VH_REG(r, "tri2", rc_::run<viennagrid::triangular_2d_mesh>, 1);
