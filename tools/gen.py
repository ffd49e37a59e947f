#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run by hand after changing a property."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

N="src/numeric/"; G="src/geometry/"; K="src/kernel/"; M="src/mesh/"; B="src/mesh_processing/"; D="src/operations/triangulation/delaunay.rs"

prop("P01", "Exact scalars compute exact numbers",
 "Every number obtained from exact scalars by addition, subtraction, multiplication, division, negation, absolute value, minimum, maximum or conversion is the exact rational result of that expression, whatever operator form was used and however deep the expression is. Its sign, its zero test and every comparison with another exact scalar are those of the rational numbers, also when the values cancel to zero or differ by less than a double can show.",
 ["inputs","programs"], "all expressions over finite inputs with non-zero divisors, all depths, all orders of asking",
 "The tests evaluate a few fixed expressions with small values; wrong answers hide in cancellation, non-dyadic leaves, extreme magnitudes and graphs deeper than the folding limit.",
 [N+"lazy_exact.rs", N+"cgar_rational.rs", N+"cgar_f64.rs", N+"scalar.rs", "src/operations/"],
 [("lazy expression graph with exact fallback", N+"lazy_exact.rs"), ("floating-point filter", N+"ball.rs"), ("rational scalar", N+"cgar_rational.rs")],
 [("expression node", "operation, operands and cached approximation, enclosure, exact value and hash", N+"lazy_exact.rs")], ["sign, comparison, conversion and exact-value queries"])
prop("P02", "Floating-point enclosures contain the exact value",
 "Whenever a scalar hands out a floating-point enclosure of its value (a ball, an interval, or a double offered as a fast substitute), the exact value lies inside it or within its stated accuracy. A sign or an order that is declared certain from an enclosure alone is the true one. The plain approximate value of a lazily evaluated expression is what rounding every step of that expression to a double can give.",
 ["inputs","programs"], "all expressions and all enclosure operations over finite doubles, including overflow, underflow and cancellation",
 "The enclosure is only wrong for particular roundings; a test that checks signs of ordinary values passes with an unsound radius.",
 [N+"ball.rs", N+"lazy_exact.rs", N+"cgar_rational.rs", N+"cgar_f64.rs", G+"util.rs"],
 [("ball arithmetic", N+"ball.rs"), ("double interval of each scalar", N+"lazy_exact.rs"), ("outward stepping", G+"util.rs")], None, ["ball, interval and fast-double accessors"])
prop("P03", "Equality, order and hashing agree on numbers and points",
 "Two exact scalars are equal exactly when they denote the same number, equal ones hash alike and order as equal, and the order is the numeric one; this does not depend on how each was computed or on what was asked before. Points and vectors are equal exactly when their coordinates are, and equal points hash alike.",
 ["inputs","histories"], "all pairs of values, all computation histories and cache states",
 "Maps and sets keyed by points break only for particular pairs of histories; tests use one history per value.",
 [N+"lazy_exact.rs", N+"cgar_rational.rs", N+"cgar_f64.rs", G+"point.rs", G+"vector.rs"],
 [("equality, order and hash of scalars", N+"lazy_exact.rs"), ("equality and hash of points", G+"point.rs")], None, ["==, partial order, hash, use as map keys, sorting"])
prop("P04", "Exact scalars may be shared between threads",
 "Handles to one exact expression can be used from several threads at once: every thread gets the same answers a single thread would get, whatever the interleaving. Meshes, trees and points over exact scalars can be read from several threads in the same way. Concurrent evaluation is free of data races and always ends.",
 ["schedules","inputs"], "all interleavings of queries on shared expressions",
 "No existing test starts a thread; a race in the shared caches needs two threads evaluating the same cold node.",
 [N+"lazy_exact.rs"], [("shared nodes with once-only caches", N+"lazy_exact.rs")],
 [("caches of a shared node", "filled at most once, by whichever thread comes first", N+"lazy_exact.rs")], ["answers of concurrent queries", "ThreadSanitizer reports"])
prop("P05", "Vectors, matrices and planes obey linear algebra",
 "Vector sums, differences, scalings, dot and cross products, squared lengths, interpolations, midpoints and perpendiculars, and matrix sums, products, transposes, determinants and inverses, equal their mathematical definitions, exactly for exact scalars and to rounding for doubles. A plane built from three non-collinear points contains them, its normal follows their order, its origin lies in it and its basis spans it, and the canonical forms of two planes (or of two lines in the plane) are equal exactly when they are the same.",
 ["inputs"], "all finite inputs, all supported scalar types and dimensions",
 "Tests use a few axis-aligned examples, for which transposed, swapped or sign-flipped terms often vanish.",
 [G+"vector.rs", G+"vector_2.rs", G+"vector_3.rs", G+"point.rs", G+"matrix.rs", G+"plane.rs", G+"segment.rs"],
 [("vector operations", G+"vector.rs"), ("matrix operations", G+"matrix.rs"), ("plane operations", G+"plane.rs")], None, ["return values"])
prop("P06", "Orientation and in-circle answers are right",
 "For exact scalars the orientation of three points in the plane or four points in space, and the in-circle test against a triangle, have the sign of the corresponding determinant for every input, including degenerate and nearly degenerate ones. For doubles they are right whenever the determinant is clearly away from zero.",
 ["inputs"], "all point configurations, with emphasis on near-degenerate ones, all kernels and scalar types",
 "A filter or elimination error shows only for particular orders or conditioning of the points.",
 [K+"orientation.rs", K+"f64_kernel.rs", K+"bigrational_kernel.rs", K+"predicates.rs", D],
 [("orientation by elimination", K+"orientation.rs"), ("kernels", K+"f64_kernel.rs"), ("in-circle test", D)], None, ["return values"])
prop("P07", "Point-location predicates are right",
 "Whether three points (the first two distinct) are collinear, whether a point lies on a segment and at which parameter, whether a point of a triangle's plane lies in, on the border of or outside the triangle, and its barycentric coordinates are answered according to the exact geometry for exact scalars. Answers do not depend on the order in which a triangle's or segment's points are given.",
 ["inputs"], "all positions of the point relative to the segment or triangle, including ends, edges and their extensions",
 "Boundary positions (end points, edge extensions, degenerate triangles) are measure-zero and need exact construction.",
 [K+"predicates.rs", G+"segment.rs", G+"util.rs", G+"canonical_edge.rs"],
 [("predicates", K+"predicates.rs"), ("segment membership", G+"segment.rs"), ("barycentric coordinates", G+"util.rs")], None, ["return values"])
prop("P08", "Segment intersection finds what two segments share",
 "Intersecting two segments in the plane or in space yields nothing, a point or an overlap exactly when the segments share nothing, one point or a stretch, and the reported point or stretch is the shared one. The answer is the same up to naming when the segments or their ends are swapped.",
 ["inputs"], "all pairs of non-degenerate segments: crossing, touching, collinear, overlapping, nested, disjoint, parallel, skew",
 "Tests cover one crossing and one overlap; touching, nested and collinear-disjoint pairs are not reached.",
 [G+"intersection.rs", G+"edge_edge_intersect.rs", G+"segment.rs", G+"tri_tri_intersect.rs", K+"predicates.rs"],
 [("segment/segment intersection", G+"intersection.rs"), ("edge/edge intersection", G+"edge_edge_intersect.rs")], None, ["return values"])
prop("P09", "Triangle intersection finds what two triangles share",
 "For two non-degenerate triangles in space that are not coplanar, the intersection routine reports nothing, a point or a segment exactly when they share nothing, one point or a segment, and reports that point or segment; every variant of the routine gives the same answer, which does not change when vertices are permuted or the triangles swapped. For coplanar triangles the reported pieces belong to both triangles, and they are the common segment or outline the common polygon exactly when there is one. The detailed variant states truthfully where on each triangle (corner, edge and parameter, interior) each reported point lies.",
 ["inputs"], "all pairs of triangles: proper crossings, touching at vertices, edges, through vertices, coplanar overlaps, near misses",
 "Tests check a handful of placements; special positions and permutations multiply into many code paths.",
 [G+"tri_tri_intersect.rs"], [("interval overlap on the common line", G+"tri_tri_intersect.rs"), ("coplanar clipping", G+"tri_tri_intersect.rs")], None, ["return values"])
prop("P10", "Box-tree queries return exactly the overlapping entries",
 "At any point of any history of building, inserting, invalidating and compacting, a query of the box tree returns every stored entry whose box meets the query box and no other, and the query for live entries returns exactly those not invalidated; touching boxes meet. The advice to rebuild is given exactly when fewer than half of the entries are live.",
 ["inputs","histories"], "all sets of boxes and all histories of operations, all scalar types",
 "Tests build one small tree; loss of an entry needs particular splits, coincident centres, insert/invalidate orders or coordinates a double cannot represent.",
 [G+"aabb.rs", G+"aabb_tree.rs"], [("median-split build", G+"aabb_tree.rs"), ("cached double bounds", G+"aabb_tree.rs"), ("lazy invalidation and counts", G+"aabb_tree.rs")],
 [("tree node", "exact box, cached double bounds, live and total counts", G+"aabb_tree.rs")], ["query results"])
prop("P11", "Mesh connectivity stays valid through every edit history",
 "After any sequence of mesh edits (adding and removing vertices and triangles, splitting edges and faces, flipping, collapsing, welding, batch edits), the half-edge structure is valid: twins are mutual, face cycles are closed and consistent, border half-edges form closed loops, edge lookup matches the half-edges, every live vertex points to one of its own, and nothing live refers to something removed. An edit that is refused leaves the mesh unchanged.",
 ["histories","inputs"], "all histories of edits, on open and closed, manifold and edge-connected meshes",
 "Tests apply one edit to one fixture; corruption of border rings and stale references only surfaces after particular sequences.",
 [M+"core.rs", M+"topology.rs", M+"edge_collapse.rs", M+"triangle.rs", M+"basic_types.rs"],
 [("triangle insertion and removal", M+"core.rs"), ("edge and face splits", M+"topology.rs"), ("edge collapse", M+"edge_collapse.rs"), ("edge flip", M+"topology.rs")],
 [("half-edge tables", "next, prev, twin, face, vertex links and edge lookup", M+"basic_types.rs")], ["public mesh tables after each edit"])
prop("P12", "Mesh edits do exactly what they say",
 "Each edit changes the set of triangles as documented and nothing else: adding or removing a triangle adds or removes that one, a split replaces the split edge's or face's triangles by ones that subdivide them at the given point, a flip exchanges the diagonals of the two triangles at the edge, and returned indices name the new elements. Splits at a point of the edge or face keep the surface, its orientation, its area and its border unchanged as a point set. A flip of a border edge, one that would repeat an existing edge, or (in space) one that would make a triangle without area is refused. A face tree handed to an edit holds the live faces afterwards when the edit is told to update it, and is left alone otherwise.",
 ["histories","inputs"], "all edits at all places of all reachable meshes",
 "Validity checks in tests do not notice a lost, duplicated or flipped triangle that is still connected.",
 [M+"core.rs", M+"topology.rs", M+"triangle.rs", M+"basic_types.rs"],
 [("split edge and split face", M+"topology.rs"), ("flip", M+"topology.rs"), ("add/remove triangle", M+"core.rs")], None, ["triangle set and positions before and after each edit"])
prop("P13", "Edge collapse keeps a manifold surface or refuses",
 "An edge collapse either is refused and leaves the mesh as it was, or removes exactly the edge, one end vertex and the triangles at the edge, re-attaching the others to the kept vertex. The result is again a valid two-manifold of the same topological type, with no duplicate edge, no degenerate or duplicate face, and border constraints and the options given by the caller are respected.",
 ["inputs","histories"], "all edges of all reachable meshes, all option combinations, repeated collapses",
 "Tests collapse a few edges of tiny grids; link-condition and border cases arise only in particular neighbourhoods.",
 [M+"edge_collapse.rs"], [("link condition and ring checks", M+"edge_collapse.rs"), ("two-phase collapse", M+"edge_collapse.rs")], None, ["result, triangle set, Euler characteristic, border loops"])
prop("P14", "Neighbourhood queries match the triangle list",
 "Every adjacency answer (faces and vertices around a vertex, neighbours of a face, the edge and faces between two vertices, border status and border loops, a face's vertices, edges, normal, area, centroid and box) is the one that follows from the current list of live triangles. Removed elements never appear.",
 ["histories","inputs"], "all vertices, edges and faces of all reachable meshes, including after edits",
 "Tests ask a few questions on fresh meshes; stale entries appear only after edits, and border fans and non-trivial rings are not covered.",
 [M+"topology.rs", M+"core.rs", M+"triangle.rs", M+"edge_collapse.rs"],
 [("vertex and face rings", M+"topology.rs"), ("face adjacency graph", M+"topology.rs"), ("edge lookup", M+"core.rs")], None, ["return values"])
prop("P15", "Vertex merging and compaction keep the surface",
 "Looking up or inserting a vertex by position returns a live vertex within the merge tolerance of that position, never a removed or farther one, and makes a new vertex there only when no live vertex lies exactly at that position. Merging duplicate vertices and dropping unused vertices or removed faces leave the same triangles between the same positions, with valid connectivity and no references to what was dropped.",
 ["histories","inputs"], "all vertex sets, including coincident, nearly coincident and hash-cell-straddling positions, and all prior edit histories",
 "Positions near cell borders and meshes with removed elements do not occur in the tests.",
 [M+"core.rs", M+"spatial_hash.rs", M+"topology.rs"], [("vertex spatial hash", M+"spatial_hash.rs"), ("compaction", M+"core.rs")], None, ["triangle soup before and after"])
prop("P16", "Point-in-mesh and ray queries match the geometry",
 "For a closed mesh a point is reported inside, outside or on the surface exactly as it is, and for a planar mesh inside or outside away from its border; a ray query reports the nearest triangle it hits and where, and a ray from a corner across its triangle where it leaves it. The answer does not depend on the search structure, on removed faces, or on how the surface is triangulated.",
 ["inputs","histories"], "all closed meshes and query points, including points whose axis rays pass through edges and vertices",
 "Tests use the centre of a box; alignment with edges, vertices and concavities decides the answer.",
 [M+"topology.rs", M+"triangle.rs"], [("ray casting", M+"topology.rs"), ("classification", M+"topology.rs")], None, ["return values"])
prop("P17", "Locating a point on a mesh finds the face it lies on",
 "Searching a mesh for a point on its surface finds a live face that contains the point and reports truthfully whether it is inside the face, on which edge or at which vertex, with matching barycentric coordinates, from any starting face, also one that has since been replaced. The faces strictly containing a point are found completely.",
 ["inputs","histories"], "all meshes with faces of positive area and all points in faces, on edges and at vertices; all starting faces and half-edges",
 "Tests locate a few points on single triangles; the walk across faces and its fallbacks are not reached.",
 [M+"topology.rs", M+"triangle.rs", M+"core.rs"], [("walk and tree fallback", M+"topology.rs"), ("location on a face", M+"triangle.rs")], None, ["return values"])
prop("P18", "Delaunay triangulation is correct",
 "The triangulation of a set of distinct planar points uses exactly the given points, covers their convex hull without overlap, is consistently oriented, and no point lies strictly inside the circumcircle of a triangle. This holds for exact scalars on every input, including collinear and cocircular points, and does not depend on the order of the points beyond ties.",
 ["inputs"], "all finite sets of distinct points with exact scalars; well-separated sets with doubles",
 "Tests triangulate a few points and count triangles.",
 [D], [("incremental insertion", D), ("in-circle filter", D)], None, ["triangles returned"])
prop("P19", "Constrained triangulation keeps every constraint",
 "Triangulating points with constraint segments yields a triangulation of the same points covering the same region in which every constraint, split at points lying on it, appears as edges; triangles are consistently oriented and do not overlap. Triangulating many faces as a batch gives each the result it has alone, in order.",
 ["inputs"], "all planar straight-line graphs with distinct points and non-crossing constraints, including constraints through other points",
 "Tests insert one or two constraints; crossing many triangles or passing through vertices is not reached.",
 [D, B+"batching.rs"], [("constraint insertion by flips", D), ("batch triangulation", B+"batching.rs")], None, ["triangles returned"])
prop("P20", "Boolean operations on solids are set operations",
 "For two closed, outward-oriented meshes, union, intersection and difference return closed, consistently oriented meshes that bound exactly the union, intersection or difference of the two solids: volumes add up, and every point is inside the result exactly when the set operation says so. This holds for disjoint, nested and crossing solids, also where corners, edges and faces of one lie on those of the other, for every exact scalar type, provided no two faces are coplanar and no edge runs along or merely touches the other surface.",
 ["inputs"], "all pairs of closed meshes without coplanar faces",
 "Existing tests only check that the result is connected; openness, lost regions and wrong sides go unnoticed.",
 [B+"boolean.rs", B+"batching.rs", G+"tri_tri_intersect.rs", D],
 [("corefinement", B+"boolean.rs"), ("region classification", B+"boolean.rs"), ("face re-triangulation", B+"batching.rs")], None, ["result mesh"])
prop("P21", "Remeshing keeps a valid surface of the same shape",
 "Isotropic remeshing of a manifold mesh ends with a valid mesh of the same topological type (characteristic, parts, border loops) without degenerate or duplicate faces. Surface and border end within a few target edge lengths of where they were; a flat mesh stays in its plane with no face turned over; edge lengths approach the requested length, and a mesh whose edges have that length already is left as it is. A tangential smoothing step moves an interior vertex, within its tangent plane (area-weighted normal), towards the average of its neighbours by the given fraction; border vertices stay, and so does a vertex whose move would make an edge longer than the limit or turn over or flatten a face.",
 ["inputs","configurations"], "all manifold input meshes and option combinations",
 "Tests run one remesh and check validity only.",
 [B+"remesh.rs", M+"topology.rs", M+"edge_collapse.rs"], [("split/collapse/flip/relax loop", B+"remesh.rs")], None, ["result mesh"])
prop("P22", "Mesh files round-trip and bad files are refused",
 "Writing a mesh to OBJ, OFF or STL and reading it back yields the same triangles, equally oriented, between the same positions (exact coordinates as nearest doubles), with the same connectivity in OBJ and OFF; ordinary layout variations (comments, line ends, blanks, number notation, i/j/k corners in OBJ) make no difference. Unreadable, missing or non-finite numbers, indices out of range, faces repeating a vertex and impossible counts lead to an error result; no file content whatsoever leads to a crash, an endless run or a mesh with invalid connectivity.",
 ["inputs","fault_sequences"], "all meshes, and all truncations and corruptions of files",
 "Tests read one well-formed file.",
 ["src/io/obj.rs", "src/io/off.rs", "src/io/stl.rs"], [("readers and writers", "src/io/")], None, ["files written, result of reading"])
prop("P23", "The intersection of two surfaces is reported completely",
 "For two closed meshes, the intersection of every pair of faces, one of each mesh, is reported, and nothing else: the segment (or point) two crossing or touching faces share, or the outline of what two coplanar faces share, once for each mesh and in the same order. Every reported end states truthfully where it lies on its mesh: at which vertex, on which edge between which two faces and at which fraction of it, or inside which face with which barycentric coordinates. Pieces of the outline that two coplanar faces share are marked coplanar; pieces of crossing faces are not. Cleaning the list afterwards leaves exactly one copy of every segment, whichever way round, and prefers the coplanar one.",
 ["inputs"], "all pairs of closed valid meshes with exact coordinates",
 "Tests only reach this code through whole boolean operations on two or three pairs.",
 [B+"boolean.rs", G+"tri_tri_intersect.rs", G+"aabb_tree.rs", M+"intersection_segment.rs"],
 [("surface intersection", B+"boolean.rs"), ("duplicate removal", B+"boolean.rs")], None, ["lists of intersection segments"])

CHECKS = {}   # id -> (technique, note)
def chk(id, technique, note): CHECKS[id] = (technique, note)
exec(open(os.path.join(V, "tools", "checks.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {"version": 1,
 "setup_cmd": "bash /verif/setup.sh",
 "hooks": {"guard": "none", "enable": "no hooks: every observation goes through the public API", "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "All checks: bash /verif/run.sh <property> [quick|thorough]; seed from VERIF_SEED. One harness crate in /verif/harness with a path dependency on /repo."}
for p in P:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        man["checks"].append({"property": i, "quick_cmd": f"bash /verif/run.sh {i} quick", "thorough_cmd": f"bash /verif/run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        man["not_applicable"].append({"property": i, "reason": NOT.get(i, "check under construction")})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties,", len(man["checks"]), "checks")
