#include "c21.hpp"
VH_REG(a, "triangular_3d_hull", (run_hull<viennagrid::triangular_3d_mesh, viennagrid::line_3d_mesh>), 1);
VH_REG(b, "triangular_3d_facet", (run_facet<viennagrid::triangular_3d_mesh, viennagrid::line_3d_mesh>), 0.5);
VH_REG(e, "triangular_3d_seed", (run_seed<viennagrid::triangular_3d_mesh>), 0.5);
