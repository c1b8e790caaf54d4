#include "c05.hpp"
VH_REG(r, "line1", run<viennagrid::line_1d_mesh>, 1);
VH_REG(sh, "line1-shrinking", shrinking<viennagrid::line_1d_mesh>, 1);
