// piecewise linear complexes: mesh copies and element copies keep lines, loose vertices and hole points
#include "c09.hpp"
namespace {
typedef viennagrid::plc_3d_mesh M; typedef Types<M> T; typedef viennagrid::plc_tag PT; typedef viennagrid::result_of::line_handle<M>::type LH; typedef viennagrid::result_of::plc_handle<M>::type PH;
struct Plc { std::set<std::set<Pt> > lines; std::set<Pt> verts; std::vector<Pt> holes; bool operator<(Plc const & o) const { return std::tie(lines, verts, holes) < std::tie(o.lines, o.verts, o.holes); } };
template<class E> Plc read(E const & e) { Plc p; for (auto & l : viennagrid::elements<viennagrid::line_tag>(e)) { std::set<Pt> q; for (auto & v : viennagrid::vertices(l)) q.insert(from_point(viennagrid::point(v))); p.lines.insert(q); } for (auto & v : viennagrid::vertices(e)) p.verts.insert(from_point(viennagrid::point(v))); for (auto const & h : viennagrid::hole_points(e)) p.holes.push_back(from_point(h)); return p; }
void compare(M const & mesh, std::vector<Plc> const & exp, size_t nv, size_t nl, char const * what) {
  std::multiset<Plc> a, b(exp.begin(), exp.end()); typedef viennagrid::result_of::const_element_range<M, PT>::type R; R r(mesh); for (viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) a.insert(read(*it)); VH_EQ(a.size(), b.size(), what << ": number of PLCs"); auto i = a.begin(), j = b.begin(); for (; i != a.end(); ++i, ++j) { VH_CHECK(i->lines == j->lines, what << ": lines differ"); VH_CHECK(i->verts == j->verts, what << ": vertices differ, " << i->verts.size() << " instead of " << j->verts.size()); VH_CHECK(i->holes == j->holes, what << ": hole points differ"); }
  VH_EQ(viennagrid::vertices(mesh).size(), nv, what << ": vertices"); VH_EQ(viennagrid::elements<viennagrid::line_tag>(mesh).size(), nl, what << ": lines");
}
void plc(vh::Src & s, vh::Case & c) {
  std::unique_ptr<M> mesh(new M); std::vector<T::VH> vh; long n = s.size(3, 10); std::vector<Pt> pts; for (long i = 0; i < n; ++i) { Pt p{(double)i, s.real(), s.real()}; pts.push_back(p); vh.push_back(viennagrid::make_vertex(*mesh, to_point<T::Point>(p))); }
  std::vector<LH> lh; std::vector<std::vector<int> > lk; KeySet seen; for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) if (s.chance(40)) { lh.push_back(viennagrid::make_line(*mesh, vh[(size_t)i], vh[(size_t)j])); lk.push_back({(int)i, (int)j}); }
  std::vector<Plc> exp; std::vector<PH> ph; std::vector<std::set<size_t> > pl, pv; KeySet used; long k = s.size(1, 5);
  for (long a = 0; a < k && !lh.empty(); ++a) {
    std::set<size_t> pick; long m = s.size(1, 6); for (long i = 0; i < m; ++i) pick.insert((size_t)s.draw(lh.size())); Cell key(pick.begin(), pick.end()); if (!used.insert(key).second) continue; std::vector<LH> l; Plc p; std::set<size_t> vs; for (size_t i : pick) { l.push_back(lh[i]); p.lines.insert(std::set<Pt>{pts[(size_t)lk[i][0]], pts[(size_t)lk[i][1]]}); vs.insert((size_t)lk[i][0]); vs.insert((size_t)lk[i][1]); }
    std::vector<T::VH> loose; long nl = s.size(0, 3); for (long i = 0; i < nl; ++i) { size_t v = (size_t)s.draw(vh.size()); loose.push_back(vh[v]); if (!vs.count(v)) c.hit(); vs.insert(v); } for (size_t v : vs) p.verts.insert(pts[v]);
    std::vector<T::Point> holes; long nh = s.size(0, 3); for (long i = 0; i < nh; ++i) { Pt q{s.real(), s.real(), s.real()}; holes.push_back(to_point<T::Point>(q)); p.holes.push_back(q); }
    size_t before = viennagrid::elements<PT>(*mesh).size(); PH h = viennagrid::make_plc(*mesh, l.begin(), l.end(), loose.begin(), loose.end(), holes.begin(), holes.end()); if (viennagrid::elements<PT>(*mesh).size() == before) { c.label("same key"); return; } ph.push_back(h); exp.push_back(p); pl.push_back(pick); pv.push_back(vs); c.desc << "P" << str(key) << "+" << nl << "h" << nh << " "; }
  compare(*mesh, exp, pts.size(), lh.size(), "source");
  std::set<size_t> al, av; for (auto const & x : pl) al.insert(x.begin(), x.end()); for (auto const & x : pv) av.insert(x.begin(), x.end());
  M dst; int how = (int)s.draw(4);
  if (how == 0) { M d2(*mesh); if (s.chance(50)) mesh.reset(); compare(d2, exp, pts.size(), lh.size(), "copy constructed"); M d3; d3 = d2; d2.clear(); compare(d3, exp, pts.size(), lh.size(), "assigned"); }
  else if (how == 1) { viennagrid::copy_elements_by_handle(*mesh, ph.begin(), ph.end(), dst); if (s.chance(50)) mesh.reset(); compare(dst, exp, av.size(), al.size(), "copied by handle"); }
  else { double tol = s.chance(50) ? -1 : 1e-9; auto r = viennagrid::elements<PT>(*mesh); viennagrid::copy_elements(r.begin(), r.end(), dst, tol); if (s.chance(50)) mesh.reset(); compare(dst, exp, av.size(), al.size(), "copied elements"); }
}
}
VH_REG(plc, "plc", plc, 0.7);
