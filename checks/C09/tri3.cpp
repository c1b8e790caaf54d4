#include "c09.hpp"
C09_ALL("tri3", viennagrid::triangular_3d_mesh)
