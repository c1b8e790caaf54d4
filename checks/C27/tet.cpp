#include "c27.hpp"
typedef viennagrid::tetrahedral_3d_mesh Mesh;
VH_REG(v, "tet-views", mesh_views<Mesh>, 1);
VH_REG(e0, "tet-filter-0", (el_views<Mesh, 0>), 0.4);
VH_REG(e1, "tet-filter-1", (el_views<Mesh, 1>), 0.4);
VH_REG(e2, "tet-filter-2", (el_views<Mesh, 2>), 0.4);
VH_REG(e3, "tet-filter-3", (el_views<Mesh, 3>), 0.4);
