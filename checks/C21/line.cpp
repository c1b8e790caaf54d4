#include "c21.hpp"
VH_REG(a, "line_1d_seed", (run_seed<viennagrid::line_1d_mesh>), 0.5);
VH_REG(b, "line_2d_seed", (run_seed<viennagrid::line_2d_mesh>), 0.5);
VH_REG(e, "line_3d_seed", (run_seed<viennagrid::line_3d_mesh>), 0.5);
