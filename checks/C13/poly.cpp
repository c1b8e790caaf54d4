#include "c13.hpp"
template<class M> void poly(Src & s, vh::Case & c) {
  typedef typename Types<M>::Point P; const int GD = P::dim; long n = s.size(3, 12); std::vector<Pt> p; LD want = 0; std::vector<double> ang; double x = 0.01 * (double)s.range(0, 100), tot = 0; std::vector<double> w; for (long i = 0; i < n; ++i) { w.push_back(1 + (double)s.draw(3)); tot += w.back(); } for (long i = 0; i < n; ++i) { ang.push_back(x); x += 6.283185307179586 * w[(size_t)i] / tot; }
  std::vector<Pt> q; for (long i = 0; i < n; ++i) { double rad = GD == 2 && n > 3 ? (double)s.range(2, 20) / 4.0 : 1.0; q.push_back(Pt{rad * std::cos(ang[(size_t)i]), rad * std::sin(ang[(size_t)i])}); } // star-shaped (2d) or convex (3d)
  if (n < 5 && GD == 2) for (auto & t : q) { double l = norm(t); t[0] /= l; t[1] /= l; }
  p = affine(s, q, GD);
  Pt o = affine(s, {Pt{0, 0}}, GD)[0]; (void)o;
  if (GD == 2) { for (size_t i = 0; i < p.size(); ++i) { Pt const & a = p[i]; Pt const & b = p[(i + 1) % p.size()]; want += ((LD)a[0] - p[0][0]) * ((LD)b[1] - p[0][1]) - ((LD)a[1] - p[0][1]) * ((LD)b[0] - p[0][0]); } want = std::fabs(want) / 2; } else want = convex_polygon(p);
  if (s.chance(50)) std::reverse(p.begin(), p.end()); std::rotate(p.begin(), p.begin() + (long)s.draw((uint64_t)n), p.end());
  M mesh; std::vector<typename Types<M>::VH> h; for (auto const & v : p) h.push_back(viennagrid::make_vertex(mesh, topt<P>(v))); viennagrid::make_element<viennagrid::polygon_tag>(mesh, h.begin(), h.end());
  for (auto const & v : p) { c.desc << "("; for (double z : v) c.desc << z << " "; c.desc << ")"; }
  double got = viennagrid::volume(viennagrid::elements<viennagrid::polygon_tag>(mesh)[0]); VH_CHECK(std::fabs((LD)got - want) <= 20 * tolerance(p, 2) + 1e-12 * want, "area of polygon is " << got << ", expected " << (double)want); c.hit(n > 3 && want > 1e-6);
}
VH_REG(a, "polygon_2d", poly<viennagrid::polygonal_2d_mesh>, 1);
VH_REG(b, "polygon_3d", poly<viennagrid::polygonal_3d_mesh>, 1);
