#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one JSON object per line).
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

prop("C01","Geometric predicates decide exactly on exact coordinates",
 "With exact coordinates the orientation determinant of a triangle or tetrahedron has the sign of its true signed area or volume and is zero exactly for degenerate ones; point equality, collinearity, point-on-segment and degenerate-triangle tests answer true exactly when the relation holds, including at endpoints and for coincident points. Classifying a point against a non-degenerate triangle answers outside, on an edge, on a vertex or inside exactly as its position (in 3D: the position of its projection along the triangle normal) dictates.",
 ["inputs"],"for all rational coordinates of all points, in 2D and 3D, including every degenerate position",
 "The tests evaluate a handful of integer configurations; the sign of a determinant over all inputs, zero pivots and coincident points are never reached.",
 ["src/kernel/orientation.rs","src/kernel/predicates.rs"],
 [("determinant by elimination","src/kernel/orientation.rs"),("proportionality test and bounds per axis","src/kernel/predicates.rs"),("edge functions","src/kernel/predicates.rs")],
 observe=["orient","are_equal","are_collinear","is_point_on_segment","point_u_on_segment","triangle_is_degenerate","point_in_or_on_triangle","bbox2d","bbox3d"])

prop("C02","Lazy exact numbers always decide as their exact rational value",
 "For every expression built from doubles, integers and rationals with + - * / and negation, the sign, zero tests, comparisons, minimum, maximum, absolute value and equality of the lazy number are those of the exact rational value of that expression, no matter which intermediate results were already evaluated or cached. The published double interval of a lazy number always contains its exact value.",
 ["inputs","programs","histories"],"for all finite leaf values, all expression shapes and all orders in which cached values were forced",
 "Tests evaluate a few expressions; the filter is only wrong for rare near-cancellations, huge scale differences and particular caching histories.",
 ["src/numeric/lazy_exact.rs","src/numeric/ball.rs","src/geometry/util.rs"],
 [("floating-point ball filter","src/numeric/ball.rs"),("exact fallback","src/numeric/lazy_exact.rs"),("identity simplification and folding","src/numeric/lazy_exact.rs")],
 state=[("ball","enclosure of the exact value","src/numeric/lazy_exact.rs"),("exact cache","memoised exact value","src/numeric/lazy_exact.rs")],
 observe=["sign","cmp_ref","partial_cmp","eq","is_zero","double_interval"])

prop("C03","Scalar types obey one coherent arithmetic and ordering contract",
 "The rational number type computes + - * /, negation, absolute value, comparison, minimum, maximum and conversion from integers, fractions and doubles exactly as rational arithmetic does, with equal values hashing equally. For the double-based type the sign, zero, positive and negative tests and the ordering are mutually consistent for every finite value and use one fixed tolerance, equal values hash equally, and stepping to the next double up or down yields a strictly larger or smaller double for every finite input.",
 ["inputs"],"for all doubles (bit patterns) and all rational values",
 "No test covers signed zeros, subnormals, tolerance boundaries or the hash/equality contract; the domain is 2^64 patterns per operand.",
 ["src/numeric/cgar_f64.rs","src/numeric/cgar_rational.rs","src/numeric/scalar.rs","src/geometry/util.rs"],
 [("scalar trait implementations","src/numeric/cgar_f64.rs"),("rational wrapper","src/numeric/cgar_rational.rs"),("next representable double","src/geometry/util.rs")],
 observe=["sign","cmp_ref","partial_cmp","is_zero","is_positive","is_negative","f64_next_up","f64_next_down"])

prop("C04","Segment, edge and ray intersections are exact and complete",
 "With exact coordinates, intersecting two non-degenerate segments in 2D or 3D reports nothing exactly when they share no point, a single point that lies on both when that is their whole common part, and otherwise exactly their common sub-segment. Edge-edge and ray-segment queries report a hit exactly when the non-parallel edges (or the ray and the segment) meet, at the true meeting point or parameter, and the parameter of a point on a segment reproduces the point.",
 ["inputs"],"for all rational endpoint coordinates, including touching, collinear, overlapping and disjoint collinear segments",
 "The tests check three hand-picked pairs; endpoint touches, collinear disjoint segments, negative pivots and every 3D case are unexplored.",
 ["src/geometry/intersection.rs","src/geometry/edge_edge_intersect.rs","src/geometry/segment.rs","src/mesh/topology.rs","src/kernel/predicates.rs"],
 [("orientation straddle test","src/geometry/intersection.rs"),("closest-point parameters","src/geometry/intersection.rs"),("parametric line intersection","src/geometry/edge_edge_intersect.rs")],
 observe=["segment_segment_intersection_2","segment_segment_intersection_3","edge_edge_intersection_2","ray_segment_intersection_2d","Segment operations"])

prop("C05","Triangle-triangle intersection is sound and complete",
 "For two non-degenerate triangles in 3D with exact coordinates, every point, segment end or polygon corner reported as their intersection lies on both triangles. Nothing is reported only when the triangles share no point, and a reported segment has its ends at the two ends of the common part, up to the library's point-merging distance of one millionth.",
 ["inputs"],"for all rational vertex coordinates of both triangles: general, touching, coplanar and tilted positions",
 "All triangle-triangle tests in the repository are commented out; only a few boolean scenarios reach the code at axis-aligned positions.",
 ["src/geometry/tri_tri_intersect.rs"],
 [("plane-side rejection and interval overlap","src/geometry/tri_tri_intersect.rs"),("coplanar clipping in a projected plane","src/geometry/tri_tri_intersect.rs")],
 observe=["tri_tri_intersection","tri_tri_intersection_with_precomp","tri_tri_intersection_with_precomp_detailed"])

prop("C06","Barycentric coordinates and point location are faithful",
 "Barycentric coordinates of a point in a non-degenerate triangle sum to one and reproduce the point (in 3D its projection onto the triangle plane). Locating a point on a mesh face answers inside, on the specific edge with the specific parameter, or on the specific vertex exactly as those coordinates dictate, and casting a ray inside a face from one of its vertices finds the point where it leaves through the opposite edge whenever there is one.",
 ["inputs"],"for all exact triangle and point coordinates in 2D and 3D (point location: all points of the closed face or above it), all three corners and all ray directions",
 "Point location is reached only through splitting tests at a few positions; edges, parameters and the 3D ray walk are not asserted.",
 ["src/geometry/util.rs","src/mesh/topology.rs"],
 [("Gram-matrix barycentric solve","src/geometry/util.rs"),("zero-pattern to edge/vertex mapping","src/mesh/topology.rs"),("ray walk inside a face","src/mesh/topology.rs")],
 observe=["barycentric_coords","location_on_face","edge_and_u_from_bary_zero","cast_ray_from_vertex_in_triangle","cast_ray_from_vertex_in_triangle_3"])

prop("C07","Bounding boxes contain exactly what they bound",
 "The box of two points and the union of two boxes is the smallest box containing both; two boxes intersect exactly when they share a point; inflating grows every side by the given amount; centre, longest axis and point-set boxes match their definition. The box computed for a mesh face contains every corner of the face.",
 ["inputs"],"for all exact coordinates and box corners in 2D and 3D",
 "Boxes are exercised only indirectly by the boolean tests, never with touching, nested or equal corners asserted.",
 ["src/geometry/aabb.rs","src/mesh/core.rs","src/kernel/predicates.rs"],
 [("per-axis minimum and maximum","src/geometry/aabb.rs"),("per-face boxes","src/mesh/core.rs")],
 observe=["Aabb::from_points","Aabb::union","Aabb::intersects","Aabb::inflated","face_aabb","build_face_tree"])

prop("C08","Box-tree queries return exactly the live overlapping entries",
 "After any sequence of building, inserting and invalidating, a query returns every stored entry whose box intersects the query box, each once, and nothing else; a query for valid entries returns exactly those of them that were not invalidated. Compacting keeps exactly the valid entries, invalidating reports how many entries it retired, and looking an entry up returns the box it was stored with.",
 ["histories","inputs"],"for all operation sequences, tree shapes, boxes and query boxes, with exact coordinates of any magnitude",
 "Tests run a fixed handful of queries; pruning errors appear only for particular shapes, insert orders and coordinate values.",
 ["src/geometry/aabb_tree.rs","src/geometry/aabb.rs"],
 [("outward-rounded cached bounds","src/geometry/aabb_tree.rs"),("valid counters for pruning","src/geometry/aabb_tree.rs"),("recursive median build","src/geometry/aabb_tree.rs")],
 state=[("valid counter","number of live entries below a node","src/geometry/aabb_tree.rs"),("cached bounds","outward enclosure of all boxes below","src/geometry/aabb_tree.rs")],
 observe=["AabbTree::query","AabbTree::query_valid","AabbTree::invalidate","AabbTree::insert","AabbTree::compact"])

prop("C09","Local edge flip and edge/face splits keep the mesh consistent",
 "On any mesh with consistent connectivity, flipping an interior edge, splitting an edge at a new point (interior or border) or splitting a face at an interior point yields a mesh with consistent connectivity again: mutual twins, three-edge face cycles, edge lookup matching the live directed edges, vertices pointing to live outgoing edges. Exactly the intended faces are replaced (two by two for a flip; one by two, two by four or one by three for splits) with the same orientation, every untouched element is unchanged, a face search tree handed along for updating lists exactly the live faces afterwards, and a refused operation changes nothing. A flip is refused only for a border edge, when the other diagonal already is an edge or when a new face would be degenerate.",
 ["inputs","histories"],"for all consistent meshes of any size and every edge or face of them, hence for any sequence of such operations (edge splits named by the side that has a face)",
 "Tests perform a few splits and flips on meshes of two to twenty faces and inspect only some links; the claim is about every mesh and all links.",
 ["src/mesh/core.rs","src/mesh/basic_types.rs","src/mesh/half_edge.rs"],
 [("flip rewiring","src/mesh/core.rs"),("edge split rewiring","src/mesh/core.rs"),("face split rewiring","src/mesh/core.rs")],
 state=[("half-edge links","twin/next/prev/face/head of each directed edge","src/mesh/half_edge.rs"),("edge lookup","directed vertex pair to half-edge","src/mesh/basic_types.rs")],
 observe=["flip_edge","split_edge","split_face"])

prop("C10","Adding and removing triangles keeps connectivity consistent",
 "After any sequence of adding vertices, adding triangles and removing triangles, singly or in batches, the mesh has consistent connectivity: mutual twins, three-edge face cycles, border loops that close up and whose links agree in both directions, and an edge lookup that matches the live directed edges. The faces present are exactly those added and not removed, with the requested vertices, and traversals (one-ring, incident faces, face vertices, boundary detection) agree with that face set at every vertex whose faces form one fan.",
 ["histories","inputs"],"for all sequences of add and remove operations that keep each directed edge used at most once",
 "Tests build a few fixed meshes; the border re-linking depends on the order and neighbourhood of every addition and removal.",
 ["src/mesh/triangle.rs","src/mesh/topology.rs","src/mesh/core.rs"],
 [("border component rebuild","src/mesh/triangle.rs"),("twin creation","src/mesh/triangle.rs"),("vertex rings","src/mesh/topology.rs")],
 observe=["add_triangle","remove_triangle","add_triangles_deferred","remove_triangles_deferred","validate_connectivity","one_ring_neighbors","incident_faces"])

prop("C11","Vertex insertion merges coincident points and never loses one",
 "Inserting a position returns a vertex within the merge tolerance of it: an existing one, reported as reused, whenever a vertex is at exactly that position, and otherwise either a near one, reported as reused, or a new vertex at exactly that position, reported as new; inserting the same position again yields the same vertex. Removing duplicate vertices merges exactly those at equal positions and keeps every face's corner positions; removing unused vertices keeps the faces and leaves exactly the vertices they use.",
 ["histories","inputs"],"for all sequences of inserted positions, in 2D and 3D, including positions straddling the cells of the lookup grid, negative coordinates and coordinates up to a million",
 "Tests insert a few integer points, all in distinct grid cells.",
 ["src/mesh/core.rs","src/mesh/spatial_hash.rs","src/mesh/basic_types.rs"],
 [("grid hash lookup with neighbour cells","src/mesh/core.rs"),("cell key computation","src/mesh/spatial_hash.rs")],
 observe=["get_or_insert_vertex","add_vertex","remove_duplicate_vertices","remove_unused_vertices"])

prop("C12","Constrained Delaunay triangulations are valid, complete and Delaunay",
 "Triangulating distinct, not all collinear points, alone or in a batch, yields for each set non-overlapping counter-clockwise triangles over exactly its points that cover its convex hull. Without constraints no point lies strictly inside the circumcircle of any triangle. With constraints that do not cross each other, every constraint appears as a chain of triangle edges through the points on it.",
 ["inputs"],"for all finite sets of points whose coordinates are whole multiples, up to 1000, of a power of two between 1/64 and 1024, no three of them forming an angle strictly between 179 and 180 degrees, and all sets of constraints between them that do not cross",
 "Tests triangulate a few small sets near the origin and check mostly counts.",
 ["src/operations/triangulation/delaunay.rs"],
 [("incremental insertion with a bounding triangle","src/operations/triangulation/delaunay.rs"),("constraint enforcement","src/operations/triangulation/delaunay.rs")],
 observe=["Delaunay::build","Delaunay::build_with_constraints_bowyer_watson","Delaunay::build_batch_with_constraints_bowyer_watson"])

prop("C13","Writing and reading a mesh file preserves the mesh",
 "Writing a triangle mesh as OBJ or OFF and reading it back yields the same vertex positions and the same faces in order and orientation; STL output lists the corner positions of every face in order and reads back to faces at the same positions. Comments, blank lines and the amount of white space in OBJ and OFF text do not matter, and OFF faces that are not triangles are skipped. Missing files, malformed or truncated numbers and faces naming missing vertices are reported as errors.",
 ["inputs"],"for all meshes with double coordinates and all legal layouts of the file text (OBJ: triangles with plain vertex numbers)",
 "No test round-trips a file.",
 ["src/io/obj.rs","src/io/off.rs","src/io/stl.rs"],
 [("line parsers","src/io/obj.rs"),("writers","src/io/off.rs"),("binary and text STL","src/io/stl.rs")],
 observe=["read and write functions of each format"])

prop("C14","Vector, matrix and plane algebra satisfies its defining identities",
 "Vector, point and matrix operations on exact numbers equal their mathematical definitions: sums, differences, scaling, dot and cross products, transposition, matrix products and determinants; an inverse is returned exactly for non-singular matrices and multiplies back to the identity. A plane through given points contains them, its origin lies on it, its basis vectors are non-zero and orthogonal to its normal and each other, and its canonical form describes the same set and is the same for all equivalent equations.",
 ["inputs"],"for all exact entries and dimensions 2 and 3 (matrix products and determinants also 4)",
 "Tests check single numeric examples; the identities are universally quantified over all entries.",
 ["src/geometry/vector.rs","src/geometry/point.rs","src/geometry/matrix.rs","src/geometry/plane.rs"],
 [("component-wise operators","src/geometry/vector.rs"),("closed-form and Laplace determinants","src/geometry/matrix.rs"),("plane construction","src/geometry/plane.rs")],
 observe=["operators of Vector, Point, Matrix","Plane::from_points","Plane::basis","Plane::canonicalized"])

prop("C15","Edge collapse is refused or leaves a consistent smaller mesh",
 "Collapsing an edge of a consistent mesh either is refused, leaving the mesh exactly as it was, or merges the two ends into one vertex at the chosen position, removes exactly the faces that contained both ends, and leaves consistent connectivity with every other face keeping its corners up to the merge. A collapse that would glue distinct edges or faces together (violating the link condition), or make a face degenerate, is always refused, and an edge is not refused for any other reason unless nothing would be left of its component or border edges were excluded.",
 ["inputs","histories"],"for all consistent meshes in which the faces at each vertex form one fan, every edge, and any sequence of collapses",
 "Tests collapse one or two edges of small meshes.",
 ["src/mesh/edge_collapse.rs","src/mesh/topology.rs"],
 [("link condition","src/mesh/edge_collapse.rs"),("plan and commit","src/mesh/edge_collapse.rs")],
 observe=["collapse_edge_begin_vertices","collapse_edge_commit","collapse_edge"])

prop("C16","Mesh booleans produce closed solids with the right volume",
 "Union, intersection and difference of two closed, consistently oriented solids in general position (crossing, apart, or one inside the other) yield a closed, consistently oriented mesh whose enclosed volume is that of the exact set operation.",
 ["inputs"],"for all pairs of solids over lazily exact numbers in general position: no corner within a hundredth of the size of a solid from a face plane of the other, no edges of the two coming as close; coplanar faces excluded",
 "Tests run a few fixed pairs of boxes and compare little more than success.",
 ["src/mesh_processing/boolean.rs","src/mesh_processing/batching.rs"],
 [("corefinement","src/mesh_processing/boolean.rs"),("classification","src/mesh_processing/boolean.rs")],
 observe=["corefine_and_boolean"])

prop("C17","Isotropic remeshing keeps the mesh a consistent manifold",
 "Remeshing ends with consistent connectivity, one fan of faces at every vertex, the same Euler characteristic and the same number of border loops, except that a patch with a border may vanish when it is small against the target length; vertices of a planar patch stay in its plane. Smoothing moves an inner vertex within its tangent plane by the given fraction of the way to the average of its neighbours, unless that made an edge longer than the limit. Vertices on a border are never smoothed.",
 ["inputs","configurations"],"for all connected consistent meshes with one fan of faces at every vertex and no two faces on the same corners, all target edge lengths, fractions and limits",
 "Tests remesh one or two fixed models.",
 ["src/mesh_processing/remesh.rs","src/mesh/core.rs","src/mesh/edge_collapse.rs"],
 [("split, collapse, flip, smooth passes","src/mesh_processing/remesh.rs"),("tangential smoothing","src/mesh/core.rs")],
 observe=["isotropic_remesh","smooth_vertices","smooth_tangential"])

prop("C18","Ray casts and inside tests agree with the solid's geometry",
 "Casting a ray against a mesh reports the nearest hit with its exact distance parameter and names the face, edge or vertex hit with the position on it; it reports no hit exactly when the ray misses every face that is not parallel to it. A point is classified as on, inside or outside a closed mesh, hollow and concave ones included, as its position relative to the enclosed solid dictates. A point off the border of a planar mesh is reported inside exactly when it lies in the meshed region.",
 ["inputs"],"for all closed meshes, points, ray origins and directions with exact coordinates, faces within ten million times the ray direction",
 "Tests query a few points of a cube; rays through edges and vertices, points in front of concave or hollow solids and parallel faces are never reached.",
 ["src/mesh/topology.rs"],
 [("ray-triangle intersection","src/mesh/topology.rs"),("several-ray vote","src/mesh/topology.rs"),("border crossings in the plane","src/mesh/topology.rs")],
 observe=["cast_ray_3","point_in_mesh_3","point_in_mesh_2"])

with open("/verif/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps(p)+"\n")
