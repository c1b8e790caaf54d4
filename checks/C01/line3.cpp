#include "c01.hpp"
VH_REG(r, "line3", (history<viennagrid::line_3d_mesh, true>), 0.5);
