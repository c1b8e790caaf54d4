#include "netgen.hpp"
VH_REG(a, "netgen_line_1d", run<viennagrid::line_1d_mesh>, 0.3);
VH_REG(b, "netgen_line_2d", run<viennagrid::line_2d_mesh>, 0.3);
VH_REG(d, "netgen_triangular_2d", run<viennagrid::triangular_2d_mesh>, 1);
VH_REG(e, "netgen_triangular_3d", run<viennagrid::triangular_3d_mesh>, 0.5);
VH_REG(f, "netgen_quadrilateral_2d", run<viennagrid::quadrilateral_2d_mesh>, 0.7);
