#include "c23.hpp"
VH_REG(a, "line_3d_io", run_io<viennagrid::line_3d_mesh>, 1);
VH_REG(b, "line_3d_foreign", run_foreign<viennagrid::line_3d_mesh>, 0.5);
