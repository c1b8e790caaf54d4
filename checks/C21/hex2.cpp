#include "c21.hpp"
VH_REG(a, "hex_edges", (run_hull<viennagrid::hexahedral_3d_mesh, viennagrid::line_3d_mesh>), 0.3);
VH_REG(b, "hex_seed", (run_seed<viennagrid::hexahedral_3d_mesh>), 0.5);
