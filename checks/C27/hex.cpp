#include "c27.hpp"
typedef viennagrid::hexahedral_3d_mesh Mesh;
VH_REG(v, "hex-views", mesh_views<Mesh>, 1);
VH_REG(e0, "hex-filter-0", (el_views<Mesh, 0>), 0.4);
VH_REG(e1, "hex-filter-1", (el_views<Mesh, 1>), 0.4);
VH_REG(e2, "hex-filter-2", (el_views<Mesh, 2>), 0.4);
VH_REG(e3, "hex-filter-3", (el_views<Mesh, 3>), 0.4);
