#include "c21.hpp"
VH_REG(a, "quadrilateral_3d_hull", (run_hull<viennagrid::quadrilateral_3d_mesh, viennagrid::line_3d_mesh>), 1);
VH_REG(b, "quadrilateral_3d_facet", (run_facet<viennagrid::quadrilateral_3d_mesh, viennagrid::line_3d_mesh>), 0.5);
VH_REG(e, "quadrilateral_3d_seed", (run_seed<viennagrid::quadrilateral_3d_mesh>), 0.5);
