#include "c09.hpp"
C09_ALL("tet", viennagrid::tetrahedral_3d_mesh)
