#include "c21.hpp"
VH_REG(a, "tet_hull", (run_hull<viennagrid::tetrahedral_3d_mesh, viennagrid::triangular_3d_mesh>), 1);
VH_REG(b, "tet_facet", (run_facet<viennagrid::tetrahedral_3d_mesh, viennagrid::triangular_3d_mesh>), 0.5);
