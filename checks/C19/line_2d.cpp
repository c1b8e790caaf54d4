#include "c19.hpp"
VH_REG(a, "line_2d", run<viennagrid::line_2d_mesh>, 1);
VH_REG(b, "line_2d_segment", run_segment<viennagrid::line_2d_mesh>, 0.5);
