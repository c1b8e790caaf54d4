#include "c16.hpp"
VH_REG(a, "cartesian_polar", (conv<C2, Po>), 1);
VH_REG(b, "polar_cartesian", (conv<Po, C2>), 1);
VH_REG(d, "cartesian_spherical", (conv<C3, Sp>), 1);
VH_REG(e, "spherical_cartesian", (conv<Sp, C3>), 1);
VH_REG(f, "cartesian_cylindrical", (conv<C3, Cy>), 1);
VH_REG(g, "cylindrical_cartesian", (conv<Cy, C3>), 1);
VH_REG(h, "spherical_cylindrical", (conv<Sp, Cy>), 1);
VH_REG(i, "cylindrical_spherical", (conv<Cy, Sp>), 1);
