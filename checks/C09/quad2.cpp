#include "c09.hpp"
C09_ALL("quad2", viennagrid::quadrilateral_2d_mesh)
