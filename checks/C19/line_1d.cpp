#include "c19.hpp"
VH_REG(a, "line_1d", run<viennagrid::line_1d_mesh>, 1);
VH_REG(b, "line_1d_segment", run_segment<viennagrid::line_1d_mesh>, 0.5);
