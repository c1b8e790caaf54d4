#include "c15.hpp"
// solid and dihedral angles, orthogonalization
VH_SUB(solid, 2) {
  C3 p[3]; V v[3]; C3 o = s.chance(50) ? C3() : gen<C3>(s); V z = cart(o); bool orthant = s.chance(15); LD L = len(z);
  for (int i = 0; i < 3; ++i) { p[i] = orthant ? C3(i == 0, i == 1, i == 2) + o : gen<C3>(s); v[i] = cart(p[i]) - z; L += len(v[i]); show(c.desc, p[i]); } show(c.desc, o);
  for (int i = 0; i < 3; ++i) if (len(v[i]) < 1e-4L * L) return; V n[3]; for (int i = 0; i < 3; ++i) n[i] = (1 / len(v[i])) * v[i]; LD det = std::fabs(dot(n[0], cross(n[1], n[2])));
  LD sep = std::min(len(cross(n[0], n[1])), std::min(len(cross(n[0], n[2])), len(cross(n[1], n[2])))); if (sep < 1e-2L) return;
  LD want = excess(n[0], n[1], n[2]); // near-coplanar rays around the origin: 0 and 2 pi are both close, so require some volume
  if (det < 1e-4L) return; c.hit(det > 1e-3L);
  eq(viennagrid::solid_angle(p[0], p[1], p[2], o), want, 1, "solid angle at an origin", 1e-6L); if (s.chance(50)) { C3 w[3]; for (int i = 0; i < 3; ++i) w[i] = p[i] - o; double f = (double)s.range(1, 40) / 4; eq(viennagrid::solid_angle(w[0] * f, w[1], w[2]), want, 1, "solid angle, one ray scaled", 1e-6L); eq(viennagrid::solid_angle(w[2], w[0], w[1]), want, 1, "solid angle, rotated", 1e-6L); eq(viennagrid::solid_angle(w[1], w[0], w[2]), want, 1, "solid angle, swapped", 1e-6L); }
}
VH_SUB(dihedral, 2) {
  C3 p[6]; V v[6]; LD L = 0; bool shared = s.chance(60); for (int i = 0; i < 6; ++i) { p[i] = gen<C3>(s); if (shared && i >= 4) p[i] = p[i - 3]; v[i] = cart(p[i]); L += len(v[i]); show(c.desc, p[i]); }
  V np = cross(v[1] - v[0], v[2] - v[0]), nq = cross(v[4] - v[3], v[5] - v[3]); LD e = 1e-3L; if (len(np) < e * L * L || len(nq) < e * L * L) return; c.hit();
  LD t = angle_ref(np, nq); eq(viennagrid::dihedral_angle(p[0], p[1], p[2], p[3], p[4], p[5]), t, 1, "dihedral angle", 1e-6L); eq(viennagrid::dihedral_angle(p[3], p[4], p[5], p[0], p[1], p[2]), t, 1, "dihedral angle, planes swapped", 1e-6L); eq(viennagrid::dihedral_angle(p[1], p[2], p[0], p[3], p[4], p[5]), t, 1, "dihedral angle, cyclic order", 1e-6L);
  LD pi = std::acos((LD)-1); eq(viennagrid::dihedral_angle(p[0], p[2], p[1], p[3], p[4], p[5]), pi - t, 1, "dihedral angle, flipped plane", 1e-6L);
}
// angle sum of triangles, closed solid angles around a tetrahedron's interior point (metamorphic)
VH_SUB(sums, 1) {
  C3 p[4]; V v[4]; LD L = 0; for (int i = 0; i < 4; ++i) { p[i] = C3(s.real(), s.real(), s.real()); v[i] = cart(p[i]); L += len(v[i]); show(c.desc, p[i]); } LD pi = std::acos((LD)-1);
  if (vol3(v[0], v[1], v[2]) < 1e-3L * L * L) return; eq(viennagrid::angle(p[1], p[2], p[0]) + viennagrid::angle(p[0], p[2], p[1]) + viennagrid::angle(p[0], p[1], p[2]), pi, 1, "angle sum of a triangle", 1e-6L);
  if (std::fabs(svol4(v[0], v[1], v[2], v[3])) < 1e-3L * L * L * L) return; c.hit(); C3 g = (p[0] + p[1] + p[2] + p[3]) * 0.25;
  eq(viennagrid::solid_angle(p[0], p[1], p[2], g) + viennagrid::solid_angle(p[0], p[1], p[3], g) + viennagrid::solid_angle(p[0], p[2], p[3], g) + viennagrid::solid_angle(p[1], p[2], p[3], g), 4 * pi, 1, "solid angles around the centroid of a tetrahedron", 1e-6L);
}
template<class P> void orth(Src & s, vh::Case & c) {
  const int D = Info<P>::dim; int n = (int)s.range(1, D + 2); std::vector<P> v; for (int i = 0; i < n; ++i) { P p; for (int d = 0; d < D; ++d) p[(std::size_t)d] = (double)s.range_signed(4); if (i > 0 && s.chance(30)) p = v[(std::size_t)s.draw((uint64_t)i)] * (double)s.range_signed(2); v.push_back(p); show(c.desc, p); }
  // exact rank by fraction-free elimination
  std::vector<std::vector<LD> > m; for (auto const & p : v) { std::vector<LD> r; for (int d = 0; d < D; ++d) r.push_back(p[(std::size_t)d]); m.push_back(r); } int rank = 0; for (int d = 0; d < D; ++d) { int piv = -1; for (int i = rank; i < n; ++i) if (m[(size_t)i][(size_t)d] != 0) { piv = i; break; } if (piv < 0) continue; std::swap(m[(size_t)piv], m[(size_t)rank]); for (int i = 0; i < n; ++i) if (i != rank && m[(size_t)i][(size_t)d] != 0) { LD f = m[(size_t)i][(size_t)d], g = m[(size_t)rank][(size_t)d]; for (int k = 0; k < D; ++k) m[(size_t)i][(size_t)k] = m[(size_t)i][(size_t)k] * g - m[(size_t)rank][(size_t)k] * f; } ++rank; }
  std::vector<P> o(v), in(v); double eps = s.chance(50) ? 1e-6 : 1e-8; std::size_t cnt = viennagrid::orthogonalize(o.begin(), o.end(), eps); VH_EQ(cnt, (std::size_t)rank, "number of independent vectors");
  for (std::size_t i = 0; i < o.size(); ++i) { if (i < cnt) VH_CHECK(len(cart(o[i])) > 1e-3L, "independent vector " << i << " is nearly zero"); else VH_CHECK(len(cart(o[i])) < 1e-5L, "dependent vector " << i << " was not reduced to zero"); for (std::size_t k = 0; k < i && i < cnt; ++k) VH_CHECK(std::fabs(dot(cart(o[i]), cart(o[k]))) < 1e-9L, "vectors " << i << " and " << k << " are not orthogonal"); }
  for (auto const & p : v) { V r = cart(p); for (std::size_t i = 0; i < cnt; ++i) { V b = cart(o[i]); r = r - (dot(r, b) / dot(b, b)) * b; } VH_CHECK(len(r) < 1e-9L, "span not preserved by orthogonalization"); }
  if (cnt) { P q; for (int d = 0; d < D; ++d) q[(std::size_t)d] = s.real(); P r = viennagrid::orthogonalize_vector(o.begin(), o.begin() + (long)cnt, q); V d = cart(q) - cart(r); for (std::size_t i = 0; i < cnt; ++i) { VH_CHECK(std::fabs(dot(cart(r), cart(o[i]))) < 1e-9L * (1 + len(cart(q))), "vector is not orthogonal to the set"); V b = cart(o[i]); d = d - (dot(d, b) / dot(b, b)) * b; } VH_CHECK(len(d) < 1e-9L * (1 + len(cart(q))), "orthogonalized vector differs by more than the span"); }
  c.hit(rank > 1 || (D == 1 && rank == 1)); if (rank < n) c.label("dependent");
}
VH_REG(o1, "orthogonalize1", orth<C1>, 0.3);
VH_REG(o2, "orthogonalize2", orth<C2>, 1);
VH_REG(o3, "orthogonalize3", orth<C3>, 2);
