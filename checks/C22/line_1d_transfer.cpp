#include "c22.hpp"
VH_REG(a, "line_1d_transfer", run_transfer<viennagrid::line_1d_mesh>, 0.5);
