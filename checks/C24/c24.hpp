// C24: readers of Netgen, Tetgen .poly, BND and Neper files
#include "meshgen.hpp"
#include "meshfiles.hpp"
using namespace mg; using vh::Case;
namespace {
inline void same_point(Pt const & got, Pt const & want, std::string const & what) { VH_EQ(got.size(), want.size(), what << ": dimension"); for (size_t i = 0; i < got.size(); ++i) VH_EQ(got[i], want[i], what << ", coordinate " << i); }
struct Plc { std::set<std::vector<int> > lines; std::set<int> verts; std::vector<Pt> holes; };
template<class M, class IdOf> void check_plcs(M const & m, std::vector<Plc> const & want, IdOf pos) {
  typedef typename viennagrid::result_of::const_element_range<M, viennagrid::plc_tag>::type R; R r(m); VH_EQ(r.size(), want.size(), "number of facets"); size_t i = 0;
  std::set<std::vector<int> > alllines; std::vector<Plc> got;
  for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it, ++i) {
    Plc const & w = want[i]; std::set<std::vector<int> > ls; size_t nl = 0; for (auto const & l : viennagrid::elements<viennagrid::line_tag>(*it)) { std::vector<int> k; for (auto const & v : viennagrid::vertices(l)) k.push_back(pos(v)); std::sort(k.begin(), k.end()); ls.insert(k); ++nl; }
    VH_EQ(nl, ls.size(), "facet " << i << " lists a line twice"); VH_EQ(ls.size(), w.lines.size(), "facet " << i << ": number of lines"); VH_CHECK(ls == w.lines, "facet " << i << ": lines"); 
    std::set<int> vs; size_t nv = 0; for (auto const & v : viennagrid::vertices(*it)) { vs.insert(pos(v)); ++nv; } VH_EQ(nv, vs.size(), "facet " << i << " lists a vertex twice"); VH_EQ(vs.size(), w.verts.size(), "facet " << i << ": number of vertices"); VH_CHECK(vs == w.verts, "facet " << i << ": vertices");
    auto const & h = viennagrid::hole_points(*it); VH_EQ(h.size(), w.holes.size(), "facet " << i << ": number of hole points"); size_t j = 0; for (auto const & p : h) { std::ostringstream o; o << "facet " << i << " hole " << j; same_point(from_point(p), w.holes[j], o.str()); ++j; }
    alllines.insert(w.lines.begin(), w.lines.end()); }
  VH_EQ(viennagrid::elements<viennagrid::line_tag>(m).size(), alllines.size(), "number of lines of the mesh");
}
}
