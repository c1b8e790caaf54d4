#include "c21.hpp"
VH_REG(a, "quadrilateral_2d_hull", (run_hull<viennagrid::quadrilateral_2d_mesh, viennagrid::line_2d_mesh>), 1);
VH_REG(b, "quadrilateral_2d_facet", (run_facet<viennagrid::quadrilateral_2d_mesh, viennagrid::line_2d_mesh>), 0.5);
VH_REG(e, "quadrilateral_2d_seed", (run_seed<viennagrid::quadrilateral_2d_mesh>), 0.5);
