#include "c19.hpp"
VH_REG(a, "triangular_2d", run<viennagrid::triangular_2d_mesh>, 1);
VH_REG(b, "triangular_2d_segment", run_segment<viennagrid::triangular_2d_mesh>, 0.5);
