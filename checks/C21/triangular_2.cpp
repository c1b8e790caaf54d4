#include "c21.hpp"
VH_REG(a, "triangular_2d_hull", (run_hull<viennagrid::triangular_2d_mesh, viennagrid::line_2d_mesh>), 1);
VH_REG(b, "triangular_2d_facet", (run_facet<viennagrid::triangular_2d_mesh, viennagrid::line_2d_mesh>), 0.5);
VH_REG(e, "triangular_2d_seed", (run_seed<viennagrid::triangular_2d_mesh>), 0.5);
