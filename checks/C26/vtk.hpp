#include "../C23/c23.hpp"
#include "c26.hpp"
namespace {
template<class M> void vtk(Src & s, Case & c) {
  Quiet qt; typedef Ex<M> E; typedef typename E::CT CT; typedef typename E::V V; typedef typename E::C C; typename E::R reader; long rounds = s.range(1, 3);
  for (long k = 0; k < rounds; ++k) {
    Spec p = make_spec<CT>(s, E::T::Point::dim); std::vector<Part> ps = parts(p); std::ostringstream b; b << c.scratch << "/g" << k; std::vector<std::string> files; std::string f;
    if (s.chance(50)) { M mesh; typename E::Sgn sg(mesh); E::build_mesh(mesh, sg, p); typename E::Store st; typename E::W w; for (auto const & d : p.data) E::reg(w, sg, p, d, st, 0); w(mesh, sg, b.str()); for (auto const & q : ps) files.push_back(fname(b.str(), p, q)); f = p.segmented() ? b.str() + "_main.pvd" : files[0]; }
    else { f = b.str() + (p.segmented() ? ".pvd" : ".vtu"); if (p.segmented()) { std::ofstream o(f.c_str()); o << "<?xml version=\"1.0\"?>\n<VTKFile type=\"Collection\" version=\"0.1\">\n<Collection>\n"; for (auto const & q : ps) { std::ostringstream n; n << "p" << q.id << "_" << k << ".vtu"; o << "<DataSet part=\"" << q.id << "\" file=\"" << n.str() << "\"/>\n"; emit<CT>(s, p, q, c.scratch + "/" + n.str()); files.push_back(c.scratch + "/" + n.str()); } o << "</Collection>\n</VTKFile>\n"; } else { emit<CT>(s, p, ps[0], f); files.push_back(f); } }
    M m; typename E::Sgn sg(m); typename E::R fresh; typename E::R & r = s.chance(60) ? reader : fresh; std::vector<double> box(p.r.pts.size() + p.r.cells.size() + 4); if (s.chance(40)) for (auto const & d : p.data) if (d.kind == 0) { auto fl = viennagrid::make_field<V>(box); r.register_vertex_scalar(fl, d.name); }
    bool plain = s.chance(30); auto read = [&](std::string const & n) { return rejects([&]() { if (plain) r(m, n); else r(m, sg, n); }); }; bool rej = false;
    switch (s.draw(6)) {
      case 0: VH_CHECK(rej = read(no_file(s, c, s.chance(50) ? ".vtu" : ".pvd")), "a missing file is not reported"); c.label("missing"); break;
      case 1: if (p.segmented()) { unlink(s.pick(files).c_str()); VH_CHECK(rej = read(f), "a missing part of a .pvd file is not reported"); c.label("missing part"); c.hit(); break; } // fall through
      case 2: VH_CHECK(!(rej = read(f)), "a well-formed file is rejected"); { std::set<int> u; for (auto const & q : ps) u.insert(q.cells.begin(), q.cells.end()); VH_EQ(viennagrid::cells(m).size(), u.size(), "number of cells"); } break;
      default: { std::string v = p.segmented() && s.chance(30) ? f : s.pick(files); mf::write(v, damage(s, slurp_(v), true, c.desc)); rej = read(f); c.hit(); c.label(rej ? "damaged: rejected" : "damaged: read"); } }
    for (auto const & e : viennagrid::cells(m)) for (auto const & v : viennagrid::vertices(e)) { volatile double x = viennagrid::point(m, v)[0]; (void)x; } for (auto const & g : sg) viennagrid::cells(g).size();
    if (!rej) { // the data fields cover the elements or are empty
      std::vector<int> ids; for (auto const & g : sg) ids.push_back(g.id()); ids.push_back(0); for (int id : ids) { for (auto const & n : r.scalar_vertex_data_names(id)) { auto fl = r.vertex_scalar_field(n, id); if (fl.is_valid()) for (auto const & v : viennagrid::vertices(m)) { volatile double x = fl(v); (void)x; } } for (auto const & n : r.scalar_cell_data_names(id)) { auto fl = r.cell_scalar_field(n, id); if (fl.is_valid()) for (auto const & v : viennagrid::cells(m)) { volatile double x = fl(v); (void)x; } } } }
  }
}
}
