#include "c27.hpp"
typedef viennagrid::triangular_2d_mesh Mesh;
VH_REG(v, "tri2-views", mesh_views<Mesh>, 1);
VH_REG(e0, "tri2-filter-0", (el_views<Mesh, 0>), 0.4);
VH_REG(e1, "tri2-filter-1", (el_views<Mesh, 1>), 0.4);
VH_REG(e2, "tri2-filter-2", (el_views<Mesh, 2>), 0.4);
