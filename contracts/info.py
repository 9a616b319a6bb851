"""What the checks assume and trust, for the evidence files."""

LEVEL = {}

TRUSTED = [
    "pyvc, the verification-condition generator of /verif (its reading of Python semantics)",
    "z3 5.3, cvc5 and sympy as back ends",
    "CPython and the standard library as described by the models in pyvc/builtins.py",
]
TRUSTED_FOR = {}

ASSUMPTIONS = [
    "names, vertices and values are hashable objects with a consistent __eq__ and __hash__",
    "machine integers and memory are unbounded; no other thread runs",
    "logging calls are external and have no effect on the program state (rendering of their arguments is C29)",
]
_REAL = ["floating point is treated as exact real arithmetic in the proofs, with literals at their decimal value "
         "(the concrete cross-check runs on the real floats)"]
ASSUMPTIONS_FOR = {p: list(_REAL) for p in ("C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19")}
ASSUMPTIONS_FOR["C12"] = _REAL + ["sin, cos and atan2 are uninterpreted apart from sin^2+cos^2=1, parity and the quadrant of atan2"]
ASSUMPTIONS_FOR["C13"] = _REAL + ["numpy.linalg.solve returns the exact solution of a regular system (Cramer's rule up to 3x3, A X = B beyond)",
                                  "freshness of the results: shapes up to 3x3; everything else: every shape",
                                  "a right inverse of a square matrix is its inverse (linear algebra, not proved again beyond 3x3)",
                                  "rows are separate lists of equal length"]
ASSUMPTIONS_FOR["C15"] = _REAL + ["the squared length of the direction exceeds the absolute tolerance; radius >= 0"]
ASSUMPTIONS_FOR["C14"] = _REAL + ["radii >= 0"]
ASSUMPTIONS_FOR["C18"] = _REAL + ["acos is uninterpreted apart from its range, monotonicity and values at -1, 0, 1",
                                  "rounding specifications: every operation returns any real within relative 1e-15 of the exact result"]
ASSUMPTIONS_FOR["C19"] = _REAL + ["numpy.linalg.solve returns the exact solution of a regular system (Cramer's rule)"]

NOTE_DEFAULT = ("Every obligation is generated from /repo's current source and discharged for all inputs; floats are exact "
                "reals. Trusts the generator pyvc, the solvers and the models of external functions. Code the generator cannot "
                "read is covered by the bounded search on the real code only, and labelled so.")
NOTE = {}
NA = {}

# ---------------------------------------------------------------- graphs, methods, clusters, configurations
_FOLD = "a sum over a collection depends only on its elements (fold extensionality); it is uninterpreted otherwise"
_NOFLOAT = ("Every obligation is generated from /repo's current source and discharged for all inputs. Trusts the generator pyvc, "
            "the solvers and the models of external functions. Code the generator cannot read is covered by the bounded search "
            "on the real code only, and labelled so.")
ASSUMPTIONS_FOR["C09"] = ["arithmetic on values is uninterpreted except where the property names it (sums, products, comparisons)"]
ASSUMPTIONS_FOR["C20"] = _REAL + ["a transform maps every point to a finite point (third homogeneous coordinate non-zero)"]
ASSUMPTIONS_FOR["C21"] = _REAL + ["make_hcs and cs_transform_matrix are used through their contracts, proved as C19; merge uses "
                                  "transformation_matrix through its contract, proved here"]
ASSUMPTIONS_FOR["C22"] = _REAL + [_FOLD, "transformation_matrix is used through its contract, proved as C21",
                                  "congruent => equal is proved for configurations whose points coincide exactly or are further "
                                  "apart than the tolerance (in between, either answer is within tolerance)"]
ASSUMPTIONS_FOR["C24"] = _REAL + ["is_acute and is_obtuse are used through their contracts, proved as C18"]
ASSUMPTIONS_FOR["C26"] = ["relations are hashed and compared through the contract proved as C28"]
ASSUMPTIONS_FOR["C27"] = ["binomial coefficients are exact integers; machine floats are not involved"]
ASSUMPTIONS_FOR["C28"] = ["equal frozensets hash alike"]
for _p in ("C01", "C02", "C03", "C04", "C09", "C25", "C26", "C27", "C28"):
    NOTE[_p] = _NOFLOAT
ASSUMPTIONS_FOR["C23"] = ["a constraint object is never itself used as a variable name",
                          "Constraint.variables gives a list of the mentioned names, the same each time (the built-in kinds: C24)"]
NOTE["C23"] = _NOFLOAT
ASSUMPTIONS_FOR["C05"] = ["the set of vertices is finite (the termination measure counts vertices without a trail)"]
ASSUMPTIONS_FOR["C06"] = ["reachability is the least set closed under edges (its leastness is used at the sets the proof names)",
                          "the set of vertices is finite (termination measure)"]
ASSUMPTIONS_FOR["C10"] = ["multi_execute depends only on the values it is given and returns a list (SumProdMethod's is proved)"]
for _p in ("C05", "C06", "C10"):
    NOTE[_p] = _NOFLOAT + (" Loops carry explicit invariants and termination measures; a counter-model of an invariant counts as a "
                           "violation only with a failing input.")
ASSUMPTIONS_FOR["C07"] = ["a method object is never itself used as a variable name; its inputs and outputs do not change",
                          "Method.execute returns a mapping and does not touch the graph it is called from",
                          "path, remove_vertex and rem_variable are used through their contracts, proved as C05, C01/C02 and here"]
NOTE["C07"] = _NOFLOAT + (" Loops of propagation and clear carry explicit invariants; a counter-model of an invariant counts as a "
                          "violation only with a failing input.")
ASSUMPTIONS_FOR["C08"] = ["Method.execute is a function of the values of the method's inputs and returns a mapping, without touching the graph",
                          "None and values are compared by a consistent equality",
                          "method graphs are well formed (proved as C07) and only variables no method determines are set",
                          "the graph is finite (termination: each round settles a variable and makes pending only later ones)"]
NOTE["C08"] = NOTE["C07"]

ASSUMPTIONS_FOR["C29"] = ["str() and repr() of a name, a value and a function succeed and change nothing",
                          "a name counts as mentioned when its text or representation is put into the text whole",
                          "a value set by SetMethod is opaque, a number or a tuple",
                          "matrices: shapes up to 3x3; number formatting succeeds for real entries"]
NOTE["C29"] = _NOFLOAT + (" What a text mentions is followed from how it is built (concatenation, join, format, containers, loops); "
                          "operations on text that are not followed leave the claim to the bounded search.")
