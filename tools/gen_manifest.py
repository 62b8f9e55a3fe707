#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T="contract-based deductive verification: postconditions on the real generic code, obligations generated by executing it on symbolic exact scalars along every path, discharged by z3/cvc5"
BND='contract checking of the real code: the contracts are executed symbolically on every case within a stated bound, obligations discharged by sign propagation and z3; larger inputs are sampled'
CHECKS={
"C01":("proof",T,"Every path of the real predicates is executed on symbolic exact coordinates; every postcondition is discharged for all rational inputs. The filtered orient2d/incircle completeness bound is only evaluated concretely. Trusts rustc, the VC generator and the SMT solvers."),
"C02":("proof","contract-based deductive verification: the numeric modules are extracted mechanically on every run (f64 and GMP names replaced by symbolic stand-ins), postconditions are discharged along every path by z3/cvc5","Ball arithmetic encloses the exact result for all finite doubles, radii and unknown balls under the IEEE rounding model; value, ball, sign, order, equality, minimum, maximum, interval of lazy numbers are proved for operands that are arbitrary expressions (value plus any enclosing ball, cached or not). Trusts the rounding model, the extraction, the VC generator and the SMT solvers."),
"C03":("proof","contract-based deductive verification: the numeric modules are extracted mechanically on every run (f64 and GMP names replaced by symbolic stand-ins), postconditions are discharged along every path by z3/cvc5","Arithmetic, order, sign, minimum, maximum, hash and conversion of the rational type and sign tests, order, equality, hash and neighbour steps of the double type are proved for all rationals and all finite doubles; conversion of integers and fractions on a fixed set of integers only. Trusts the rounding model, the extraction, the VC generator and the SMT solvers."),
"C04":("proof",T,"All obligations of 2D/3D segment-segment, edge-edge, ray-segment and segment helper contracts are discharged for all rational inputs. Trusts rustc, the VC generator and the SMT solvers."),
"C05":("proof",T,"Soundness and completeness of the plain and the precomputed triangle-triangle routines are proved for triangles that cross, touch with a corner on the plane or have an edge in the plane (normals without zero component, one projection axis and rotation per contract, merge distance zero); in-plane segment intersection and small hulls are proved. Coplanar pairs and most of the detailed variant are bounded: random and adversarial rational inputs, labelled bounded in the evidence."),
"C06":("proof",T,"Barycentric coordinates, location on a face and the ray walk inside a face are proved for all exact coordinates; finding the face is proved on one- and two-face meshes only (bounded)."),
"C07":("proof",T,"Box operations are proved for all exact corners. Paths through double intervals are decided for representative doubles, point-set boxes up to 4 points; both are reported separately."),
"C08":("other",BND,"Bounded: trees of at most a few entries with every pattern of box positions, and random operation sequences; nothing is proved for larger trees."),
"C09":("proof",T,"Flip, edge split, face split and the face tree update are executed on patches whose surroundings are unknown (outside elements are only named), so the obligations cover meshes of any size; points and positions are symbolic. Vertex reuse by position and the rest of the mesh are covered as far as the patch argument in DESIGN.md goes."),
"C10":("other",BND,"Bounded: every add and remove sequence reaching the surfaces of at most 7 vertices (8 with at most 10 faces), plus random longer sequences; nothing is proved beyond."),
"C11":("other",BND,"Bounded: up to a few positions on and next to cell borders at several scales, plus random sequences; nothing is proved beyond."),
"C13":("other",BND,"Bounded: the enumerated surfaces with special coordinates, every layout variant at each line, a missing file, plus random meshes; nothing is proved beyond."),
"C14":("proof",T,"All vector, matrix and plane operations in 2D and 3D are proved for all exact components."),
"C15":("other",BND,"Bounded: every edge of every surface of at most 7 vertices (8 with at most 10 faces), any chosen position up to 4 faces, sequences of two collapses, plus random longer sequences; nothing is proved beyond."),
"C12":("other",BND,"Every set of points of a 3 by 3 grid and every set of at most 5 points of a 4 by 4 grid, with every single constraint on the former, is decided exhaustively against exact integer geometry (bounded); larger sets and several constraints are sampled. No obligation covers sets of any size: insertion needs the Delaunay lemma and the filters compute in doubles."),
"C16":("other",BND,"Booleans of sampled pairs of solids (tetrahedra, skewed boxes, dented tetrahedra; crossing, apart, nested) on lazily exact numbers, volume compared with clipping in doubles, result checked closed and oriented (bounded). No obligation covers any pair: corefinement, hash-ordered splitting, flood fill and stitching as a whole are out of reach. The parts are C05, C08 to C12 and C18."),
"C17":("other",BND,"One smoothing move is discharged for any position of the vertex, any fraction and any limit with 3 to 6 neighbours at three placements each (bounded in the neighbours). Whole remeshing runs on all small surfaces and on sheets with sampled positions (bounded). The steps are C09 (split, flip) and C15 (collapse)."),
"C18":("proof",T,"A ray against one face (hit, miss, edge, vertex, parallel) is proved for all exact coordinates. The nearest of several faces, the inside tests for a tetrahedron, an octahedron and a planar triangle are discharged for any position of the point (bounded in the number of faces); concave and hollow solids, rays against them and planar regions are sampled. Assumes that the box tree offers every face near the ray (C08)."),
}
NA={
}
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
default="not built yet"
m={"version":1,"setup_cmd":"bash setup.sh",
"checks":[{"property":p,"quick_cmd":f"bash check.sh {p}","thorough_cmd":f"bash check.sh {p}","technique":t,"level":l,"level_note":n} for p,(l,t,n) in sorted(CHECKS.items())],
"not_applicable":[{"property":p,"reason":NA.get(p,default)} for p in props if p not in CHECKS],
"notes":"See DESIGN.md."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
