#include "c22.hpp"
VH_REG(a, "line_1d_data", run_data<viennagrid::line_1d_mesh>, 1);
