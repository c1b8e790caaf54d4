#include "c22.hpp"
VH_REG(a, "line_3d_data", run_data<viennagrid::line_3d_mesh>, 1);
