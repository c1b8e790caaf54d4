#include "c19.hpp"
VH_REG(a, "line_3d", run<viennagrid::line_3d_mesh>, 1);
VH_REG(b, "line_3d_segment", run_segment<viennagrid::line_3d_mesh>, 0.5);
