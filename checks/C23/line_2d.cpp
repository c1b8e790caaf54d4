#include "c23.hpp"
VH_REG(a, "line_2d_io", run_io<viennagrid::line_2d_mesh>, 1);
VH_REG(b, "line_2d_foreign", run_foreign<viennagrid::line_2d_mesh>, 0.5);
