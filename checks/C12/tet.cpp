#include "refchk.hpp"
VH_REG(r, "tet", rc_::run<viennagrid::tetrahedral_3d_mesh>, 1);
