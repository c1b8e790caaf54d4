#include "c09.hpp"
C09_ALL("hex", viennagrid::hexahedral_3d_mesh)
