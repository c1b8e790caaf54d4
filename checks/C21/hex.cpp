#include "c21.hpp"
VH_REG(a, "hex_hull", (run_hull<viennagrid::hexahedral_3d_mesh, viennagrid::quadrilateral_3d_mesh>), 0.7);
VH_REG(b, "hex_facet", (run_facet<viennagrid::hexahedral_3d_mesh, viennagrid::quadrilateral_3d_mesh>), 0.3);
