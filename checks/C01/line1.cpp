#include "c01.hpp"
VH_REG(r, "line1", (history<viennagrid::line_1d_mesh, true>), 0.5);
