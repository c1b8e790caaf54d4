#include "c05.hpp"
VH_REG(r, "line2", run<viennagrid::line_2d_mesh>, 1);
VH_REG(sh, "line2-shrinking", shrinking<viennagrid::line_2d_mesh>, 1);
