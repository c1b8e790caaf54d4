#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

V = "viennagrid/"
p("C01", "Every boundary element is stored exactly once and shared by its cells",
  "After any sequence of vertex and element insertions, a mesh contains, for every topological dimension its configuration stores below the cells, exactly one element per distinct vertex set that bounds an inserted cell (or was inserted directly), and no other element; every inserted vertex and every inserted cell is contained with its own coordinates and vertex list. Cells that have a boundary element in common refer to one and the same element. Iterating a mesh, a segment or an element by element type visits every element exactly once, in the same order forwards, backwards and by position, and agrees with the reported number of elements.",
  ["inputs", "histories", "configurations"],
  "all insertion sequences, vertex orders, cell types (line, triangle, quadrilateral, tetrahedron, hexahedron, polygon, piecewise linear complex) and full or reduced mesh configurations",
  "Tests build a few hand-written meshes (two cubes, one quad) and print counts; sharing depends on the order and orientation in which cells meet.",
  [V+"mesh/mesh.hpp", V+"mesh/element_creation.hpp", V+"storage/inserter.hpp", V+"storage/hidden_key_map.hpp", V+"element/element_key.hpp", V+"element/element.hpp", V+"topology/simplex.hpp", V+"topology/quadrilateral.hpp", V+"topology/hexahedron.hpp", V+"topology/polygon.hpp", V+"topology/plc.hpp"],
  [("boundary element generation per cell type", V+"topology/*.hpp"), ("deduplication by sorted vertex ids", V+"element/element_key.hpp"), ("recursive insertion", V+"storage/inserter.hpp")])
p("C02", "Boundary elements follow the reference numbering and local orientation",
  "A cell reports its vertices in the order given at creation and its edges and faces in the documented reference order, each spanned by exactly the reference vertices prescribed for that cell type (triangle, quadrilateral, tetrahedron, hexahedron, polygon). Seen from any hosting cell or face, the local vertices of a shared boundary element appear in the host's own reference order, no matter which other element created it first.",
  ["inputs", "histories"],
  "all cells, all vertex permutations of neighbouring cells, all creation orders",
  "Tests use one creation order; orientation errors show only when a facet is first created by a neighbour with a permuted vertex order.",
  [V+"element/element.hpp", V+"element/element_orientation.hpp", V+"topology/simplex.hpp", V+"topology/quadrilateral.hpp", V+"topology/hexahedron.hpp", V+"topology/polygon.hpp", V+"mesh/mesh.hpp"],
  [("reference topology tables", V+"topology/*.hpp"), ("orientation permutations stored per boundary element", V+"element/element.hpp")])
p("C03", "Ids, handles and lookups identify elements uniquely",
  "No two elements of one type in a mesh ever share an id: elements numbered automatically get consecutive ids from zero, an element created with an explicit id carries exactly that id, and later automatic ids never collide with it. Finding by id or by handle, in a mesh or in a segment, returns precisely that element or reports absence. Creating a vertex with a tolerance returns an existing vertex of that mesh or segment exactly when one lies strictly closer than the tolerance, and otherwise creates one.",
  ["inputs", "histories"],
  "all histories mixing automatic and explicit ids, lookups of present and absent ids, and tolerance-based vertex creation",
  "Tests only use automatic numbering or ids 0..n-1 in ascending order.",
  [V+"storage/id_generator.hpp", V+"storage/id.hpp", V+"storage/inserter.hpp", V+"storage/handle.hpp", V+"mesh/element_creation.hpp", V+"mesh/mesh_operations.hpp", V+"mesh/mesh.hpp"],
  [("id generator", V+"storage/id_generator.hpp"), ("explicit ids", V+"storage/inserter.hpp"), ("find by id / handle", V+"mesh/mesh_operations.hpp")])
p("C04", "Co-boundary and neighbor ranges are exact at every point of a history",
  "For any element of a mesh or a segment, the co-boundary range of a given element type holds exactly once each of the elements of that mesh or segment which contain it, and the neighbor range holds exactly once each other element of the same mesh or segment that shares a connecting element of the requested type. This is true at every moment, in particular for queries made after further elements were inserted, erased or taken out of a segment, however queries and changes are interleaved, and for the mesh and each of its segments independently.",
  ["inputs", "histories"],
  "all meshes, segments, element/connector dimension pairs, and interleavings of insertions and removals with queries",
  "Tests query a finished mesh once; the ranges are cached and refreshed lazily, so the failures need interleavings.",
  [V+"mesh/coboundary_iteration.hpp", V+"mesh/neighbor_iteration.hpp", V+"mesh/mesh.hpp"],
  [("lazily rebuilt co-boundary containers", V+"mesh/coboundary_iteration.hpp"), ("lazily rebuilt neighbor containers", V+"mesh/neighbor_iteration.hpp"), ("change counters", V+"mesh/mesh.hpp")])
p("C05", "Boundary detection is exact for the mesh and for every segment",
  "A facet is reported as boundary of a mesh or segment exactly when an odd number of the cells of that mesh or segment contain it, and a lower-dimensional element exactly when it belongs to such a facet of that mesh or segment. The answer is right at every point of any history of insertions, removals and queries, and mesh and segment answers do not influence each other. An element is on the boundary of a host element exactly when it is one of that host's own boundary elements.",
  ["inputs", "histories"],
  "all meshes, segmentations, element dimensions, and interleavings of insertions and removals with queries",
  "Tests count boundary facets of one finished mesh.",
  [V+"algorithm/boundary.hpp", V+"mesh/mesh.hpp", V+"mesh/segmentation.hpp"],
  [("lazy boundary detection", V+"algorithm/boundary.hpp"), ("propagation to lower dimensions", V+"algorithm/boundary.hpp")])
p("C06", "Interface detection between two segments is exact and symmetric",
  "A facet is reported as interface of two segments exactly when it is on the boundary of both, a lower-dimensional element exactly when it belongs to such a facet. The answer does not depend on the order of the two segments and is right at every point of any history of insertions, removals and queries over any number of segments.",
  ["inputs", "histories"],
  "all meshes with two or more segments, all segment pairs, element dimensions and query/insertion interleavings",
  "The test checks one two-segment mesh once.",
  [V+"algorithm/interface.hpp", V+"algorithm/boundary.hpp", V+"mesh/segmentation.hpp"],
  [("lazy interface detection per segment pair", V+"algorithm/interface.hpp")])
p("C07", "Segment membership mirrors what was put in and taken out",
  "A segment contains exactly the elements created in it or added to it together with all their boundary elements, each once, and elements created through a segment are also in the mesh. For every element the reported segment ids, the is-in-segment answer and the per-segment ranges agree with each other; adding again or adding to another (overlapping) segment changes nothing else, and removing an element from a segment takes exactly that element and the elements containing it out of that segment while the mesh and other segments keep them. Boundary, co-boundary and neighbor queries restricted to a segment see these changes. The collection of all elements of a segmentation is the union of its segments.",
  ["inputs", "histories"],
  "all histories of segment creation, element creation, addition and removal with overlapping segments",
  "Tests build two disjoint segments and iterate them.",
  [V+"mesh/segmentation.hpp", V+"mesh/mesh.hpp", V+"mesh/element_deletion.hpp", V+"storage/view.hpp"],
  [("views and recursive addition", V+"mesh/segmentation.hpp"), ("element-to-segment mapping", V+"mesh/segmentation.hpp"), ("view erase", V+"mesh/element_deletion.hpp")])
p("C08", "Segment ids and names resolve to the right segment",
  "Every segment of a segmentation has a unique id and a unique name; requesting a segment by an existing id or name returns that very segment and requesting a new one creates exactly one segment with that id or name, while checked access to an absent id or name fails with an error. Renaming moves the name: the old name no longer resolves, the new one does, and a name already in use is refused. After a segmentation is cleared it is empty and can be used again like a new one.",
  ["histories"],
  "all sequences of segment creation by id, by name or automatically, renaming, lookup, iteration and clearing",
  "One test creates three named segments.",
  [V+"mesh/segmentation.hpp"],
  [("segment id map and name map", V+"mesh/segmentation.hpp")])
p("C09", "Copies of meshes and segmentations are exact and independent",
  "Copying or assigning a mesh yields the same vertices (ids, coordinates), elements and element ids as the source. Copying the cells of a mesh with its segmentation, all of them or those selected by a functor, yields exactly these cells with their vertices, and all segments with their ids, names and copied member cells; copying single elements or element ranges into another mesh adds exactly these elements (hole points and loose vertices of PLCs included) and merges a vertex with an existing one only within the requested tolerance. Source and copy are independent: later changes to either, or destruction of the source, do not affect the other. Copying into a target that already held other content leaves only the copy for assignment, and clearing leaves an empty, reusable mesh.",
  ["inputs", "histories"],
  "all meshes, segmentations, histories of copy, assign, mutate and clear",
  "Tests copy one small mesh and print it.",
  [V+"mesh/mesh.hpp", V+"mesh/mesh_operations.hpp", V+"mesh/segmented_mesh.hpp", V+"mesh/segmentation.hpp"],
  [("deep copy", V+"mesh/mesh.hpp"), ("selective copy with vertex map", V+"mesh/mesh_operations.hpp"), ("segmented mesh copy", V+"mesh/segmented_mesh.hpp")])
p("C10", "Deleting an element removes exactly it and its dependants",
  "Erasing an element from a mesh (one without segments or views that refer to it) removes that element and every element that contains it, and nothing else. All remaining elements keep their ids, coordinates, vertices and boundary elements, later traversals and lookups see exactly the remaining elements, and new elements can be inserted afterwards as usual.",
  ["inputs", "histories"],
  "all meshes and sequences of insertions and deletions of elements of any dimension",
  "No stable test inspects the mesh after deletions of several elements.",
  [V+"mesh/element_deletion.hpp", V+"storage/container.hpp", V+"storage/hidden_key_map.hpp"],
  [("collection of dependants and swap-to-end erase", V+"mesh/element_deletion.hpp")])
p("C11", "Refinement of triangle meshes is a conforming exact subdivision",
  "Refining a triangle mesh, uniformly, by any set of marked cells or edges, or along a hyperplane, yields a conforming mesh whose cells subdivide the original ones: total and per-cell measure are preserved, no hanging vertices appear, original vertices survive, and every new vertex is the midpoint of an edge (its intersection with the plane for hyperplane refinement). Exactly the requested edges are split (all for uniform, those of marked cells, the marked ones, or those crossing the plane otherwise), untouched cells are carried over unchanged, each child has the orientation of its parent and belongs to exactly the segments of its parent, and the input mesh is not modified.",
  ["inputs"],
  "all triangle and line meshes (2D and 3D), cell orders, vertex permutations, marker sets and segmentations",
  "Tests refine fixed files once and compare total volume.",
  [V+"algorithm/refine.hpp", V+"algorithm/detail/refine_tri.hpp"],
  [("edge tagging and midpoint creation", V+"algorithm/refine.hpp"), ("case tables", V+"algorithm/detail/refine_tri.hpp")])
p("C12", "Refinement of tetrahedral meshes is a conforming exact subdivision",
  "Refining a tetrahedral mesh, uniformly, by any set of marked cells or edges, or along a hyperplane, yields a conforming mesh whose cells subdivide the original ones: total and per-cell volume are preserved, neighbouring cells split shared faces identically, original vertices survive, and every new vertex is the midpoint of an edge (its intersection with the plane for hyperplane refinement). Exactly the requested edges are split, untouched cells are carried over unchanged, each child has the orientation of its parent and belongs to exactly the segments of its parent, and the input mesh is not modified.",
  ["inputs"],
  "all tetrahedral meshes, edge-length ties, cell orders, vertex permutations, all marker patterns and segmentations",
  "Tests refine a few cases and compare volume and surface; the case analysis has hundreds of branches depending on edge flags and edge-length order.",
  [V+"algorithm/refine.hpp", V+"algorithm/detail/refine_tet.hpp"],
  [("case analysis on refined edges", V+"algorithm/detail/refine_tet.hpp"), ("consistent longer-edge decision across cells", V+"algorithm/detail/refine_tet.hpp")])
p("C13", "Measures of elements, meshes and segments are correct",
  "The volume (length, area) of every element equals its geometric measure for any position and vertex order, general convex quadrilaterals, planar-faced hexahedra and polygons included, and is translation-invariant and scales with the power of the dimension. The volume of a mesh or segment is the sum over its cells, and the surface of an element, mesh or segment is the total measure of its boundary facets.",
  ["inputs"],
  "all coordinates, element types and vertex orders, meshes and segments",
  "Tests use unit cubes and squares, where many wrong formulas agree.",
  [V+"algorithm/volume.hpp", V+"algorithm/spanned_volume.hpp", V+"algorithm/surface.hpp"],
  [("per-type volume formulas", V+"algorithm/volume.hpp"), ("spanned volumes", V+"algorithm/spanned_volume.hpp"), ("facet sum", V+"algorithm/surface.hpp")])
p("C14", "Centroids, circumcenters, normals, and extents are correct",
  "The centroid of a simplex is the mean of its vertices and that of a mesh or segment the measure-weighted mean over its cells; the circumcenter has equal distance to all vertices and lies in the plane of the element (simplices, rectangles, cuboids). Normal vectors of edges in the plane and of triangles and quadrilaterals in space are perpendicular to the element and follow its vertex order (left of an edge, right-hand rule), bounding boxes are the tight axis-parallel boxes of the vertices, and the mesh size is the diagonal of that box, all for any position and vertex order.",
  ["inputs"],
  "all coordinates, element types and vertex orders",
  "Tests do not compare these values to independent references.",
  [V+"algorithm/centroid.hpp", V+"algorithm/circumcenter.hpp", V+"algorithm/geometry.hpp"],
  [("per-type formulas", V+"algorithm/centroid.hpp, "+V+"algorithm/circumcenter.hpp"), ("geometry helpers", V+"algorithm/geometry.hpp")])
p("C15", "Vector products, norms, determinants, spanned volumes and angles are correct",
  "Inner products, cross products, the 1-, 2- and maximum norms, determinants, spanned volumes, Gram-Schmidt orthogonalization (with the number of independent vectors), and planar, dihedral and solid angles of arbitrary points equal their mathematical definitions up to floating-point rounding, also for points in non-Cartesian coordinates where supported. In particular the algebraic laws hold: symmetry, bilinearity, antisymmetry of the cross product, invariance of angles under scaling and rotation, and angle sums.",
  ["inputs"],
  "all coordinate values, dimensions 1 to 3, argument orders and supported coordinate systems",
  "Tests evaluate a few fixed vectors.",
  [V+"algorithm/inner_prod.hpp", V+"algorithm/cross_prod.hpp", V+"algorithm/norm.hpp", V+"algorithm/geometry.hpp", V+"algorithm/angle.hpp", V+"algorithm/spanned_volume.hpp", V+"algorithm/detail/numeric.hpp"],
  [("closed formulas", V+"algorithm/*.hpp")])
p("C16", "Points behave as vectors in every coordinate system",
  "Converting a point between Cartesian, polar, spherical and cylindrical coordinates and back gives the same location, and conversions between any two systems agree with going through Cartesian coordinates. Addition, subtraction, negation, scaling, and their in-place forms give, in every coordinate system, the location obtained by doing the same on Cartesian coordinates, without changing the other operand; components, sizes, component-wise minimum/maximum and lexicographic comparison match the stored coordinates.",
  ["inputs"],
  "all points and scalars in all supported systems and dimensions",
  "Tests convert a few fixed points.",
  [V+"point.hpp"],
  [("coordinate converters", V+"point.hpp"), ("coordinate-system arithmetic", V+"point.hpp")])
p("C17", "Distances and closest points are true minima",
  "The distance of a point to a point, vertex, line, triangle, convex quadrilateral, tetrahedron or parallelepiped, of two lines, and of a line to the lines of a segment, equals the minimum Euclidean distance of the two point sets: zero exactly when they touch, symmetric in its arguments, and invariant under translation. The boundary distance is the same for the boundaries of the objects (point against any element, mesh or segment; two-dimensional cells against lines, cells, meshes and segments; segment against segment). The reported closest points lie one on each object and are that far apart. A point accessor passed explicitly is used for all positions. (Cells that are nearly degenerate, and lines that are nearly but not exactly parallel, are excluded.)",
  ["inputs"],
  "all positions of supported object pairs, including touching, crossing, parallel and degenerate projections",
  "Tests use axis-aligned configurations with integer coordinates.",
  [V+"algorithm/closest_points.hpp", V+"algorithm/distance.hpp"],
  [("case analysis per object pair", V+"algorithm/closest_points.hpp"), ("distance from closest points", V+"algorithm/distance.hpp")])
p("C18", "Point-in-element tests agree with geometry",
  "A point (in the plane of the triangle, for triangles in space) is reported as inside a triangle or tetrahedron exactly when it lies in the closed element up to the tolerance, for any position, size, vertex order and orientation, with the default or a given tolerance and with the default or a given point accessor. Points that are clearly inside are never reported as outside, nor the other way round.",
  ["inputs"],
  "all elements and query points, all vertex orders",
  "No stable test covers it systematically.",
  [V+"algorithm/inclusion.hpp"],
  [("barycentric / sign tests", V+"algorithm/inclusion.hpp")])
p("C19", "Voronoi boxes partition the mesh and match their cell contributions",
  "For Delaunay line, rectangle, triangle, tetrahedron and cuboid meshes whose circumcenters lie in the mesh, vertex box volumes equal the true Voronoi box volumes and sum up to the mesh volume, edge box volumes also sum up to it, and each interface area is the measure of the dual facet of its edge. Every total equals the sum of its reported contributions per cell.",
  ["inputs"],
  "all such meshes, vertex and cell orders, including obtuse triangles in the interior",
  "Tests compare sums on fixed files.",
  [V+"algorithm/voronoi.hpp", V+"algorithm/circumcenter.hpp"],
  [("per-cell-type accumulation", V+"algorithm/voronoi.hpp")])
p("C20", "Geometric transforms act on every vertex exactly once",
  "Scaling a mesh by any factor about any center, and applying an affine transform with any matrix and translation, moves each vertex to precisely the transformed position, once, and changes nothing else. Scaling and inverse scaling cancel, and measures change by the determinant.",
  ["inputs"],
  "all meshes, factors, centers, matrices and translations",
  "One test scales one mesh.",
  [V+"algorithm/geometric_transform.hpp"],
  [("vertex loop", V+"algorithm/geometric_transform.hpp")])
p("C21", "Extracted boundaries and seed points represent the mesh",
  "Extracting the boundary of a mesh yields exactly its boundary facets with the same coordinates, once each, no more; with a segmentation each hull segment holds exactly the facets bounding the respective segment. Extracted seed points are one point per facet-connected component of cells of every segment, labelled with that segment and lying in one of its cells.",
  ["inputs"],
  "all meshes and segmentations, including non-connected and touching components",
  "No stable test compares them with a reference.",
  [V+"algorithm/extract_boundary.hpp", V+"algorithm/extract_seed_points.hpp", V+"algorithm/boundary.hpp", V+"mesh/mesh_operations.hpp"],
  [("boundary predicate copy", V+"algorithm/extract_boundary.hpp"), ("flood fill over neighbours", V+"algorithm/extract_seed_points.hpp")])
p("C22", "Data stored per element is returned for that element only",
  "Values written through an accessor or field for an element are read back for that element and no other, for vector, deque and map storage and all element types; reading an element never written reports absence or an error through the checked calls and yields the default for constant fields, and does not disturb stored values. Transferring quantities from elements of one dimension to another applies the averaging to exactly the values of the incident source elements accepted by the filters, and stores it only on accepted destinations.",
  ["inputs", "histories"],
  "all sequences of reads and writes, all meshes, dimension pairs and filters",
  "Tests store data once on a fixed mesh.",
  [V+"accessor.hpp", V+"algorithm/quantity_transfer.hpp", V+"functors.hpp"],
  [("dense and map accessors / fields", V+"accessor.hpp"), ("boundary and co-boundary transfer", V+"algorithm/quantity_transfer.hpp")])
p("C23", "VTK export followed by import restores mesh, segments and data",
  "Writing a mesh with any number of segments and any scalar and vector data on vertices and cells to VTK files and reading them back yields the same geometry, cells with the same vertex order, segments with the same members, and for every quantity name the same values on the same vertices and cells, up to the written precision. Registering data on the mesh or on single segments and querying it by name or through registered fields give consistent results, and data of one segment never shows up in another. A mesh with fewer than two segments is written as one file without segment information, carrying the data registered on the mesh.",
  ["inputs", "configurations"],
  "all meshes (line, triangle, quadrilateral, tetrahedron, hexahedron), segmentations, data names, numbers and values",
  "Tests write and read fixed files and compare a few values.",
  [V+"io/vtk_writer.hpp", V+"io/vtk_reader.hpp", V+"io/vtk_common.hpp", V+"io/xml_tag.hpp"],
  [("writer", V+"io/vtk_writer.hpp"), ("reader", V+"io/vtk_reader.hpp"), ("vertex order translation", V+"io/vtk_common.hpp")])
p("C24", "Mesh file readers reproduce the file contents exactly",
  "Reading any well-formed Netgen, Tetgen poly, BND or Neper tessellation file yields exactly the vertices with their coordinates and ids, the cells or facets with their vertex order, the segments, facet holes, hole points and seed points the file describes, regardless of white space, comments and number formatting the format permits. Nothing is dropped, duplicated or attached to the wrong segment.",
  ["inputs"],
  "all well-formed files of the supported formats",
  "Tests read a few shipped files and mostly do not inspect the result.",
  [V+"io/netgen_reader.hpp", V+"io/tetgen_poly_reader.hpp", V+"io/bnd_reader.hpp", V+"io/neper_tess_reader.hpp", V+"io/helper.hpp"],
  [("format parsers", V+"io/*_reader.hpp")])
p("C25", "Other writers emit a faithful description of the mesh",
  "The OpenDX, COMSOL (mphtxt) and ViennaMesh writers emit all vertices with their coordinates, all cells with their vertices, correct counts and segment information for any mesh. Data written is the data of the respective vertex or cell; boundary and interface triangles carry the correct adjacent segments (first the one the triangle normal points away from) and share a contact index exactly within connected coplanar patches of the same segments. A file that cannot be opened for writing is reported by an exception.",
  ["inputs"],
  "all meshes, segmentations and data",
  "Tests only check that files are written.",
  [V+"io/opendx_writer.hpp", V+"io/mphtxt_writer.hpp", V+"io/vmesh_writer.hpp"],
  [("writers", V+"io/*_writer.hpp")])
p("C26", "Damaged input files are rejected cleanly",
  "For any file that is missing, truncated, or has tokens damaged, every reader terminates, either reporting an error or returning a mesh; it never crashes, reads or writes out of bounds, loops forever, or exhausts memory. A missing file, and a truncation that cuts away mesh data announced in the header of a Netgen or Tetgen file, are reported as errors.",
  ["inputs", "fault_sequences"],
  "all truncation points and token damage of otherwise valid files",
  "No test feeds a damaged file.",
  [V+"io/netgen_reader.hpp", V+"io/tetgen_poly_reader.hpp", V+"io/vtk_reader.hpp", V+"io/bnd_reader.hpp", V+"io/xml_tag.hpp", V+"io/helper.hpp"],
  [("stream state checks and format exceptions", V+"io/*_reader.hpp")])
p("C27", "Views hold exactly the chosen elements and leave the mesh alone",
  "An element view of a mesh or segment made with a filter holds exactly the elements of that host the filter accepts, in the host's order, and an element view made without one is empty; adding an element to a view, or to a mesh view, makes exactly that element a member, once; a cell created through a mesh view joins the mesh and, with its edges and faces, that view. Erasing an element from a mesh view takes out it and those members that contain it. A view refers to the mesh's own elements; later insertions into the mesh, copies of a view and changes to a copy do not alter the members of a view, and nothing done with views alters the mesh. Lookup by id or handle, boundary and co-boundary queries on a mesh view see exactly its members.",
  ["inputs", "histories"],
  "all meshes, segments, filters and histories of creating, copying, extending, shrinking and querying views while the mesh grows",
  "No test inspects a view.",
  [V+"element/element_view.hpp", V+"storage/view.hpp", V+"mesh/mesh.hpp", V+"mesh/segmentation.hpp", V+"mesh/element_deletion.hpp", V+"mesh/coboundary_iteration.hpp"],
  [("filtered element views", V+"element/element_view.hpp"), ("handle containers", V+"storage/view.hpp"), ("copying of views", V+"mesh/mesh.hpp"), ("erasing from a view", V+"mesh/element_deletion.hpp")])
p("C28", "Archived meshes are restored exactly",
  "Writing meshes of fixed-size cells through the mesh serializer to a Boost archive and loading them into empty meshes restores every vertex with bit-identical coordinates and every cell with the same vertices in the same order, in the original sequence, whatever the vertex ids, for any number of meshes in one archive. Writing does not change the mesh, archiving the restored meshes gives the same archive again, and a serializer without a mesh is refused with an error.",
  ["inputs"],
  "all line, triangle, quadrilateral, tetrahedron and hexahedron meshes, vertex ids, loose vertices and coordinates",
  "The shipped test is disabled and only writes.",
  [V+"io/serialization.hpp"],
  [("save and load", V+"io/serialization.hpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
