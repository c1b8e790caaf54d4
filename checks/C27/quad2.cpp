#include "c27.hpp"
typedef viennagrid::quadrilateral_2d_mesh Mesh;
VH_REG(v, "quad2-views", mesh_views<Mesh>, 1);
VH_REG(e0, "quad2-filter-0", (el_views<Mesh, 0>), 0.4);
VH_REG(e1, "quad2-filter-1", (el_views<Mesh, 1>), 0.4);
VH_REG(e2, "quad2-filter-2", (el_views<Mesh, 2>), 0.4);
