NOT = {}
COMMON = " Runs the real library built from /repo with debug assertions and overflow checks; a panic, crash or hang of the library counts. Trusts GMP/rug and the harness."
chk("P01", "runtime oracle: differential monitoring of expression graphs against rational arithmetic", "Sampled expressions, every observation compared with an independent rational evaluation." + COMMON)
chk("P02", "runtime oracle: containment of the exact value in every enclosure handed out", "Sampled expressions and raw enclosure operations." + COMMON)
chk("P03", "runtime oracle: order/equality/hash laws over values with different histories", "Sampled value sets and cache states." + COMMON)
chk("P04", "multi-threaded stress with per-answer oracle and deadlock watch; the same workloads under ThreadSanitizer", "Sampled interleavings." + COMMON)
chk("P05", "runtime oracle: differential monitoring of linear algebra against rational definitions", "Sampled inputs including exactly constructed special positions." + COMMON)
chk("P06", "runtime oracle: predicate answers against rational determinants", "Sampled inputs including exactly constructed special positions." + COMMON)
chk("P07", "runtime oracle: predicate answers against rational geometry", "Sampled inputs including exactly constructed special positions." + COMMON)
chk("P08", "runtime oracle: reported intersections against rational set intersection", "Sampled inputs including exactly constructed special positions." + COMMON)
chk("P09", "runtime oracle: reported intersections and contacts against rational clipping", "Sampled inputs including exactly constructed special positions." + COMMON)
chk("P10", "model-based monitoring: every answer of operation histories compared with a plain list", "Sampled histories." + COMMON)
chk("P11", "model-based monitoring: full connectivity table check after every operation of edit histories", "Sampled histories of fourteen kinds of edit." + COMMON)
chk("P12", "model-based monitoring: the set of live triangles after every edit compared with the one the edit defines", "Sampled histories of fourteen kinds of edit." + COMMON)
chk("P13", "runtime oracle: outcome of every edge collapse compared with the link condition and the expected triangle set", "Sampled meshes, edges and placements." + COMMON)
chk("P14", "runtime oracle: every query on meshes reached by edit histories compared with the list of live triangles", "Sampled histories; all vertices, edges and faces of each mesh are queried." + COMMON)
chk("P15", "model-based monitoring: lookups compared with a scan of all vertices, compactions with the triangles by position", "Sampled histories." + COMMON)
chk("P16", "runtime oracle: point and ray queries compared with exact parity, containment and a scan over all faces", "Sampled meshes, histories and queries including rays through edges and vertices." + COMMON)
chk("P17", "runtime oracle: located face, edge, vertex and coordinates compared with exact barycentric coordinates", "Sampled meshes, histories, points and starts." + COMMON)
chk("P18", "runtime oracle: every triangulation checked for orientation, coverage, use of all points and empty circumcircles in rational arithmetic", "Sampled point sets including exactly constructed special positions." + COMMON)
chk("P19", "runtime oracle: every constrained triangulation checked for orientation, coverage and presence of all constraints in rational arithmetic", "Sampled planar straight-line graphs." + COMMON)
chk("P20", "runtime oracle: every result triangle traced to surface and side, closedness, exact volume identities and point membership", "Sampled pairs of solids, in general position and touching; coplanar faces and planar regions are known findings." + COMMON)
chk("P21", "runtime oracle: remeshed surfaces checked for validity, type, orientation, drift and edge lengths, smoothing steps against the exact formula", "Sampled meshes, targets and step sizes; bounds on drift and edge lengths are empirical with margin." + COMMON)
chk("P22", "runtime oracle: written files compared with an independent reader, fault injection into files", "Sampled meshes, layouts and damages." + COMMON)
chk("P23", "runtime oracle: reported intersection pieces compared face pair by face pair with rational clipping, stated places with positions", "Sampled pairs of closed surfaces in general, touching and flush position." + COMMON)
