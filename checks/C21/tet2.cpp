#include "c21.hpp"
VH_REG(a, "tet_edges", (run_hull<viennagrid::tetrahedral_3d_mesh, viennagrid::line_3d_mesh>), 0.5);
VH_REG(b, "tet_seed", (run_seed<viennagrid::tetrahedral_3d_mesh>), 0.5);
