#include "c23.hpp"
VH_REG(a, "line_1d_io", run_io<viennagrid::line_1d_mesh>, 1);
VH_REG(b, "line_1d_foreign", run_foreign<viennagrid::line_1d_mesh>, 0.5);
