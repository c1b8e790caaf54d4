#include "c22.hpp"
VH_REG(a, "line_3d_transfer", run_transfer<viennagrid::line_3d_mesh>, 0.5);
