#include "c27.hpp"
typedef viennagrid::line_2d_mesh Mesh;
VH_REG(v, "line2-views", mesh_views<Mesh>, 1);
VH_REG(e0, "line2-filter-0", (el_views<Mesh, 0>), 0.4);
VH_REG(e1, "line2-filter-1", (el_views<Mesh, 1>), 0.4);
