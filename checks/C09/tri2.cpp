#include "c09.hpp"
C09_ALL("tri2", viennagrid::triangular_2d_mesh)
