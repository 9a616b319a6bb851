"""Writes properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
G="solver/graph.py"; M="solver/method.py"; GE="solver/geometry.py"
CF="solver/geometric/configuration.py"; CO="solver/geometric/constraint.py"
CL="solver/geometric/cluster.py"; RE="solver/geometric/relation.py"

p("C01","A graph's incoming and outgoing views always mirror each other",
  "After any sequence of graph operations, an edge is reported as leaving u for v exactly when it is reported as entering v from u, and the value attached to it is one and the same in both views. Both end points of every edge are vertices of the graph.",
  ["histories","inputs"],"every sequence of public graph operations on any hashable vertices and values, self loops included",
  "The tests build one fixed four-vertex graph and look only at reverse() and subgraph(); no test removes anything or inspects the incoming view.",
  [G],[("add_vertex/add_edge/remove_edge/remove_vertex/set keep both dictionaries in step",G+":Graph")],
  ["edges()","ingoing_vertices()","outgoing_vertices()","get()"],
  [dict(name="_forward",meaning="vertex -> (successor -> value)",where=G),dict(name="_reverse",meaning="vertex -> (predecessor -> value)",where=G)])
p("C02","Graph updates change exactly the vertices and edges they name",
  "Adding, setting or removing a vertex, an edge or a two-way edge has exactly the named effect: missing end points are added with an edge, removing a vertex also removes every edge touching it, setting overwrites the value, and adding what is already there changes nothing (an existing edge keeps its value). Every other vertex, edge and value is untouched, and removing a vertex, edge or two-way edge that is absent raises an error and changes nothing.",
  ["inputs","histories"],"every graph state reachable by operations and every argument, self loops included",
  "Tests only call add_edge/add_bi_edge on fresh vertices; the frame (everything else unchanged) ranges over all graphs.",
  [G],[("mutators",G+":Graph.add_vertex,add_edge,add_bi_edge,set,set_bi_edge,remove_edge,remove_bi_edge,remove_vertex")],
  ["vertices()","edges()","get()"])
p("C03","Copies, subgraphs and reversed graphs are exact and independent",
  "Copying a graph (by constructor or copy operation) yields the same vertices, edges and values; a subgraph has exactly the requested vertices that exist and all edges between them with their values; a reversed graph has the same vertices and every edge flipped with its value. The original is not changed, and later changes to either graph never show in the other.",
  ["inputs","histories"],"every graph and every vertex selection",
  "test_reverse and test_subgraph check one inclusion on one graph; values, isolated vertices, the other inclusion and aliasing are never looked at.",
  [G],[("copy constructor, copy, subgraph, reverse",G+":Graph.__init__,copy,subgraph,reverse")],["vertices()","edges()","get()"])
p("C04","Graph queries report exactly the stored edge relation",
  "Membership tests and the lists of vertices, edges, ingoing, outgoing and adjacent vertices and edges report exactly the graph's edge relation: no duplicates, none missing, every listed edge an ordered (source, target) pair of the graph. Queries never change the graph, and a returned list is a snapshot that later changes to the graph do not alter.",
  ["inputs","histories"],"every graph state and vertex",
  "Only edges() is used by a test, on one graph, and only for inclusion.",
  [G],[("query methods",G+":Graph.has_vertex,has_edge,has_bi_edge,has_any_edge,get,vertices,edges,outgoing_*,ingoing_*,adjacent_*")],["return values"])
p("C05","Path search returns a real path, or nothing only when none exists",
  "For any two vertices the path search terminates; a non-empty result is a list that begins with the start vertex, ends with the end vertex and follows an existing edge at every step, using at least one edge (a cycle when start equals end). It returns an empty list only if no such path exists.",
  ["inputs"],"every directed graph and start/end pair",
  "No test calls path directly; the method graph tests reach it on three tiny graphs.",
  [G],[("worklist search with trails",G+":Graph.path")],["path()"])
p("C06","Reachability and connected components are exact",
  "The vertices connected to a vertex (following edges in both, only incoming, or only outgoing direction) are exactly those reachable from it by one or more such edges, without the vertex itself, each listed once. The connected subsets partition the graph's vertices into exactly its undirected connected components. Neither query changes the graph.",
  ["inputs"],"every directed graph and start vertex",
  "No test calls these functions at all.",
  [G],[("worklist search",G+":Graph.connected,connected_via_ingoing,connected_via_outgoing,connected_subsets")],["connected*()","connected_subsets()"])
p("C07","A method graph stays well formed and rejects bad methods without trace",
  "After any sequence of operations, dependencies run exactly from each registered method's inputs to it and from it to its outputs, all of them registered variables; each variable is determined by at most one method, and there is no dependency cycle. A method that would break this is refused with the specific error and leaves the methods, their dependencies and all existing variables and values as they were; removing a variable or method removes exactly it (and, for a variable, the methods on it), clearing removes every variable, and operations on unknown variables or methods are refused and change nothing.",
  ["histories","inputs"],"every history of add/remove/set/clear operations, with arbitrary methods and variables",
  "The tests make one refused call of each kind at the end of one history and never look at the graph afterwards; nothing is ever removed.",
  [M,G],[("add_method validity check and rollback",M+":MethodGraph.add_method"),("removal",M+":MethodGraph.rem_variable,rem_method,clear")],
  ["variables()","methods()","exceptions of add_method"],[dict(name="_methods/_map/_graph",meaning="methods, variable values, dependency graph",where=M)])
p("C08","Propagation leaves every method's outputs consistent with its inputs",
  "Whenever a propagating operation (setting a free variable, adding a method, executing a method, or an explicit propagate after deferred changes) returns, no change is pending and the value of every variable determined by a method is what that method computes from the current values of its inputs, or None when an input is None or the method gives no value. Variables not determined by any method keep the value last set.",
  ["histories","configurations"],"every acyclic method graph with deterministic methods, every history of immediate and deferred changes, every propagation order",
  "Tests propagate along one chain of at most three methods in which no two methods share a changed input late.",
  [M],[("change flags",M+":MethodGraph.propagate,_do_execute,set,execute,add_method")],["get()"],
  [dict(name="_changed",meaning="variables whose consumers are not yet up to date",where=M)])
p("C09","Built-in methods compute exactly their documented function",
  "An addition method yields the sum, a subtraction method the first minus the second input, a set method its fixed value and an assign method its input's value, for its output variable and no other. When a needed input is absent (or, for addition and subtraction, None) the result is an empty mapping, and the input mapping is never modified.",
  ["inputs"],"every variable choice (repeated ones included) and every input mapping",
  "Only the addition method is ever executed by a test, on present numeric inputs.",
  [M],[("execute methods",M+":AddMethod,SubMethod,SetMethod,AssignMethod")],["execute()"])
p("C10","A multi-method covers every combination of its multi-valued inputs",
  "Executing a multi-valued method gives its single output exactly the collection of values computed over every combination of values of its multi-valued inputs, with single-valued inputs fixed at their value; nothing is missing, nothing extra, and the inputs are not modified. Construction is refused unless there is exactly one output and it is multi-valued.",
  ["inputs"],"any number of multi-valued and single-valued inputs, any value sets",
  "One test: two multi-valued inputs with two and two values.",
  [M],[("recursive enumeration",M+":MultiMethod.execute,_recurse_execute,__init__; SumProdMethod.multi_execute")],["execute()"])
p("C11","Tolerant comparisons follow the tolerance formula and are consistent",
  "Two scalars are tolerantly equal exactly when their difference is at most the absolute tolerance plus the relative tolerance times the second value's magnitude, with defaults 1e-8 and 1e-5 and any tolerances given taking their place. Of tolerant less-than, equal and greater-than exactly one holds, tolerant at-most/at-least are the unions with equality, and tests against zero use zero as the reference; two vectors are tolerantly equal exactly when both coordinates are.",
  ["inputs"],"all finite scalars and non-negative tolerances",
  "Tests use tol_eq on a few near-equal pairs; the ordering functions, custom tolerances and boundaries are untested.",
  [GE],[("Scalar.tol_*, Vector.tol_eq",GE)],["return values"])
p("C12","Vector arithmetic obeys the laws of the plane",
  "Vector addition, subtraction, scaling, division, negation, dot product and length are the componentwise Euclidean operations and give new vectors without changing their operands; length is never negative and its square is the dot product with itself. Rotation by an angle in degrees takes (x, y) to (x cos a - y sin a, x sin a + y cos a), so it preserves length and is undone by the opposite rotation, and the azimuth is the direction angle in degrees.",
  ["inputs"],"all finite coordinates, scalars and angles",
  "Tests evaluate a handful of fixed vectors; laws range over all reals.",
  [GE],[("Vector",GE+":Vector")],["Vector operators"])
p("C13","Matrix products, transposes, identities and inverses obey matrix algebra",
  "The product of two matrices of compatible sizes has entry (i, j) equal to the sum over k of a(i,k) b(k,j); incompatible sizes are refused. Transposing swaps rows and columns, the identity matrix is neutral, and the inverse of an invertible matrix multiplied with it gives the identity; non-square matrices have no inverse. No operation other than in-place rounding changes its operands.",
  ["inputs"],"all matrix shapes and entries (vectors included as one-column matrices)",
  "No test exercises Matrix at all except through configuration equality on 3x3 frames.",
  [GE],[("Matrix",GE+":Matrix.__mul__,transpose,identity,inverse,solve")],["Matrix operators"])
p("C14","Circle-circle intersection is sound and complete within tolerance",
  "Every point returned for two circles lies on both circles up to the module's tolerance, and every common point of two circles with distinct centres is within tolerance of a returned point. At most two points are returned, exactly one when the circles touch within tolerance, and none when the centres coincide or the circles are apart or nested beyond tolerance.",
  ["inputs"],"all centres and non-negative radii",
  "No test calls it; the degenerate branches (touching, centre line offsets near zero) need special inputs.",
  [GE],[("cc_int",GE+":cc_int")],["cc_int()"])
p("C15","Circle-line and circle-ray intersections are sound and complete",
  "Every point returned for a circle and a line lies on both up to tolerance and every common point is returned up to tolerance; a tangent gives one point, a miss none, a secant two. For a ray the result is exactly those of the line's points that are not behind the ray's origin (within tolerance).",
  ["inputs"],"all centres, radii, points and non-degenerate directions, horizontal and vertical included",
  "No test calls them; the secant branch could not even run.",
  [GE],[("cl_int, cr_int",GE)],["cl_int()","cr_int()"])
p("C16","Line and ray intersections are sound and complete",
  "For two lines that are not parallel within tolerance exactly one point is returned and it lies on both lines; parallel lines give an empty list. With rays, the point is returned exactly when it is not behind the origin of any ray involved (within tolerance), otherwise the list is empty; no valid input raises an error.",
  ["inputs"],"all points and directions, axis-parallel and nearly axis-parallel ones included",
  "No test calls them; sign and parallel cases need specific inputs.",
  [GE],[("ll_int, lr_int, rr_int",GE)],["ll_int()","lr_int()","rr_int()"])
p("C17","Orientation predicates classify every triangle exactly once",
  "For any three points exactly one of clockwise, counter-clockwise and flat holds, decided by whether the cross product of the two successive edges is below, above or within the absolute tolerance of zero. Reversing the order of the points swaps clockwise and counter-clockwise, and moving all points by one translation or cyclically renaming them changes nothing.",
  ["inputs"],"all triples of points",
  "Tests use a few axis-aligned triples; trichotomy and symmetry range over all triples.",
  [GE],[("is_clockwise, is_counterclockwise, is_flat",GE)],["predicates"])
p("C18","Three-point angles are correct, signed and never fail",
  "The angle at the middle point is None exactly when one of its arms has zero length within tolerance; otherwise it lies in [-pi, pi], its cosine is the normalised dot product of the arms, and it is negative exactly when the points are counter-clockwise. A triple is acute (obtuse) exactly when its angle exists and is tolerantly less (greater) than a right angle in magnitude; rounding never makes these functions fail.",
  ["inputs"],"all triples of points, collinear and coincident ones included",
  "Tests cover four triples; rounding near collinear points and sign conventions are not sampled.",
  [GE],[("angle_3p, is_acute, is_obtuse, distance_2p",GE)],["return values"])
p("C19","Coordinate frames and frame-to-frame transforms are rigid and exact",
  "The frame built from two points is None exactly when they coincide within tolerance; otherwise it has the first point as origin, its first axis along the direction to the second and its second axis perpendicular to it (a quarter turn counter-clockwise), both of unit length, or of the points' distance in the scaled variant. The transform between two frames takes the first frame exactly onto the second, so between unit frames it is a rotation and translation preserving all distances and orientation.",
  ["inputs"],"all pairs of points",
  "Reached by the tests only through configuration equality on four pairs.",
  [GE],[("make_hcs, make_hcs_scaled, cs_transform_matrix",GE)],["return values"])
p("C20","Configuration operations are exact and leave their operands unchanged",
  "Transforming maps every named point by the given homogeneous transform; extending keeps all of this configuration's points and adds exactly those of the other whose names are new; selecting keeps exactly the requested points; copying gives an equal configuration with the same flag. Each yields a new configuration and none changes its operands or the mapping a configuration was built from.",
  ["inputs"],"every pair of configurations over any names, and every affine transform",
  "Only equality is tested; these operations are never called directly.",
  [CF],[("transform, add, select, copy, __init__",CF+":Configuration")],["vars()","get()"])
p("C21","Merging configurations is rigid, keeps this one and overlaps shared points",
  "A merge keeps every point of this configuration as it is and adds the other configuration's new points moved by one distance- and orientation-preserving motion that brings shared points onto each other: whenever some such motion overlaps all shared points and two of them are apart, the merge uses exactly that motion. The result is reported underconstrained exactly when an operand already was, or no point is shared, or a single point is shared and both have others, or no two shared points are apart (beyond tolerance) in both, and the merged configuration carries that status.",
  ["inputs"],"every pair of configurations, any number of shared points, coincident ones included",
  "No test calls merge.",
  [CF,GE],[("merge, transformation_matrix",CF)],["merge()"])
p("C22","Configuration equality means congruence, and equal ones hash alike",
  "Two configurations are equal exactly when they have the same names and one distance- and orientation-preserving motion carries every point of one onto the same-named point of the other (within tolerance). Hence any rotated or translated copy is equal to the original, a mirrored, rescaled or otherwise altered one is not, and equal configurations, which have equal name sets, always have equal hash values independent of insertion order and coordinates.",
  ["inputs"],"all configurations, any number of points, repeated points included, any rigid motion",
  "Tests compare two-point configurations at four orientations; three or more points, coincident points and inequality are never tested.",
  [CF,GE],[("__eq__, __hash__, makehash",CF)],["==","hash()"])
p("C23","A constraint graph's queries report exactly the constraints on variables",
  "After any sequence of additions and removals the constraints reported on a variable are exactly the registered constraints that mention it, on all of several variables exactly those mentioning every one, on any of them exactly the union, each once. Adding a constraint of any kind registers it and its variables; removing a constraint removes only it; removing a variable removes it and exactly the constraints mentioning it; unknown names give empty results and removals of unknown things change nothing.",
  ["histories","inputs"],"every history and every set of variables and constraints, selection constraints included",
  "Tests build one three-constraint graph, never remove anything and never add a selection constraint.",
  [CO,G],[("ConstraintGraph",CO)],["variables()","constraints()","get_constraints_on*()"])
p("C24","Selection constraints accept exactly the documented points",
  "A function constraint is satisfied exactly when its function returns True for the values of its variables in order, and it reports those variables. The not-clockwise, not-counter-clockwise, not-obtuse and not-acute constraints are satisfied exactly when the triple is not clockwise, not counter-clockwise, not obtuse, not acute respectively (degenerate triples always are), and the plus constraint exactly when the first two values sum to the third.",
  ["inputs"],"all functions, variables and point values",
  "Tests use two or three triples per constraint.",
  [CO,GE],[("satisfied",CO)],["satisfied()","variables()"])
p("C25","Cluster intersection gives the right cluster whichever way round it is asked",
  "The intersection of two clusters is None when fewer than two points are shared; of two rigids it is the rigid on the shared points; of a rigid or balloon with a balloon it is the balloon on the shared points if there are at least three; with a hedgehog it is the hedgehog on the same centre over the shared outer points if the centre belongs to both (is the common centre of two hedgehogs) and at least two outer points are shared; otherwise None. The result does not depend on the order of the two clusters, neither of which is changed, and balloons and hedgehogs with fewer than three distinct points cannot be built.",
  ["inputs"],"all pairs of clusters of the three kinds over any point sets",
  "Tests check about a dozen fixed pairs over points 1 to 8.",
  [CL],[("intersection dispatch",CL)],["intersection()"])
p("C26","Common constraints are exactly the distances and angles two clusters both fix",
  "The common distances of two clusters are exactly the pairs of shared points when both are rigid, and none otherwise. The common angles are exactly those fixed by both: all three angles of every shared triple for rigids and balloons, and for a hedgehog the angles at its centre between shared outer points, provided the centre belongs to the other cluster (is its centre, for two hedgehogs). The result is the same in either order and the clusters are not changed.",
  ["inputs"],"all pairs of clusters over any point sets",
  "No test calls it; it could not even run.",
  [CL,RE],[("common_constraints, common_distances, common_angles*",CL)],["common_constraints()"])
p("C27","Constraint counts equal the number of distances and angles a cluster fixes",
  "A rigid on n points counts n choose 2 distances and 3 times n choose 3 angles, a balloon no distances and 3 times n choose 3 angles, a hedgehog with k outer points no distances and k choose 2 angles, and the total is their sum. The counts are integers and do not change the cluster.",
  ["inputs"],"all clusters of every size",
  "One test: distances of a four-point rigid.",
  [CL],[("n_distances, n_angles, n_constraints",CL)],["n_*()"])
p("C28","Distances and angles compare as geometric relations and hash consistently",
  "Two distances are equal exactly when they join the same two points in either order; two angles are equal exactly when they have the same middle point and the same two outer points in either order; a distance never equals an angle. Equal relations have equal hash values, for any distinct hashable points.",
  ["inputs"],"all hashable points",
  "No test touches relations.",
  [RE],[("PointRelation.__hash__, Distance.__eq__, Angle.__eq__",RE)],["==","hash()"])
p("C29","Every object can be rendered as text",
  "Rendering any graph, method, method graph, constraint, constraint graph, cluster, relation, configuration, vector or matrix as text succeeds for any hashable names, strings or not, leaves the object unchanged, and the text mentions the names of the object's variables, points or vertices. Debug logging of such objects therefore never disturbs an operation.",
  ["inputs"],"all objects of these classes over any names",
  "No test renders anything but a vector in a failure message.",
  [G,M,CO,CL,RE,CF,GE],[("__str__/__repr__",G)],["str()","repr()"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if s:
    for r in P: jsonschema.validate(r,s)
print(len(P))
