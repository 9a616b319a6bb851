GR, ME, GE = "solver/graph.py", "solver/method.py", "solver/geometry.py"
CO, CL, RE, CF = ["solver/geometric/%s.py" % n for n in ("constraint", "cluster", "relation", "configuration")]

seed("c05_shared_trail", "C05", [(GR, "                    trails[v] = this_path + [v]\n\n                    # add the vertex to the list to be searched", "                    trails[v] = this_path\n                    trails[v].append(v)\n\n                    # add the vertex to the list to be searched")], '''
from solver.graph import Graph
g = Graph()
for a, b in [("s", "a"), ("s", "b"), ("a", "c"), ("b", "d"), ("c", "t"), ("d", "u")]:
    g.add_edge(a, b)
for end in "tu":
    p = g.path("s", end)
    assert p[0] == "s" and p[-1] == end and all(g.has_edge(x, y) for x, y in zip(p, p[1:])), p
''', "a vertex with two branches on the way", "the path takes steps that are not edges")
seed("c05_identity", "C05", [(GR, "                if v == end:\n                    # found", "                if v is end:\n                    # found")], '''
from solver.graph import Graph
g = Graph()
g.add_edge(("p", 1), ("p", 2))
assert g.path(tuple(["p", 1]), tuple(["p", 2])) == [("p", 1), ("p", 2)]
''', "an end vertex equal to the stored one but another object", "an existing path is not found")
seed("c10_skip_known", "C10", [(ME, "                base_inmap[mvar] = value\n                output.update", "                if value in output:\n                    continue\n\n                base_inmap[mvar] = value\n                output.update")], '''
from solver.method import MultiVariable, SumProdMethod
x, y, z = MultiVariable("x"), MultiVariable("y"), MultiVariable("z")
m = SumProdMethod(x, y, z)
r = set(m.execute({x: [1, 2, 3, 4], y: [1, 3, 10]})[z])
assert r == {f for a in [1, 2, 3, 4] for b in [1, 3, 10] for f in (a + b, a * b)}, r
''', "an input value that is also an output value found earlier", "the combinations with that value are missing")
seed("c10_falsy_fixed", "C10", [(ME, "                value = inmap[variable]\n                base_inmap[variable] = value", "                value = inmap[variable]\n                base_inmap.setdefault(variable, value or 0)")], '''
from solver.method import MultiVariable, MultiMethod
class Join(MultiMethod):
    def multi_execute(self, inmap):
        return [tuple(inmap[self.inputs[0]]) + (inmap[self.inputs[1]],)]
x, z = MultiVariable("x"), MultiVariable("z")
m = Join("join", ["a", x], [z])
assert set(m.execute({"a": (), x: [1, 2]})[z]) == {(1,), (2,)}
''', "a single-valued input whose value is empty", "the fixed value is replaced by zero")
seed("c13_identity_is", "C13", [(GE, "            if i == j:\n                return 1.0", "            if i is j:\n                return 1.0")], '''
from solver.geometry import Matrix
n = 300
m = Matrix.identity(n)
assert all(m.elements[i][j] == (1.0 if i == j else 0.0) for i in range(n) for j in range(n))
''', "an identity of more than 257 rows", "the last rows of the identity are zero")
seed("c19_relative", "C19", [(GE, "    if Scalar.tol_zero(u.length):\n        # vectors are on top", "    if Scalar.tol_eq(a.x, b.x) and Scalar.tol_eq(a.y, b.y):\n        # vectors are on top")], '''
from solver.geometry import make_hcs, Vector
h = make_hcs(Vector(10000.0, 5000.0), Vector(10000.05, 5000.0))
assert h is not None
''', "two points close to each other but far from the origin", "no frame is built for two distinct points")
seed("c28_hash_of_text", "C28", [(RE, "        return hash(frozenset(self.points))\n\nclass Distance", "        return hash(frozenset(str(point) for point in self.points))\n\nclass Distance")], '''
from solver.geometric.relation import Distance, Angle
assert Distance(1, 2) == Distance(2.0, 1.0) and hash(Distance(1, 2)) == hash(Distance(2.0, 1.0))
assert len({Angle(1, 2, 3), Angle(3.0, 2, 1)}) == 1
''', "points that are equal but print differently", "equal relations have different hash values")
seed("c22_hash_of_text", "C22", [(CF, "        self.hashvalue = hash(sum([hash(var) for var in self.mapping]))", "        self.hashvalue = hash(sum([hash(str(var)) for var in self.mapping]))")], '''
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({1.0: Vector(0, 0), 2.0: Vector(1, 0)})
assert a == b and hash(a) == hash(b)
''', "names that are equal but print differently", "congruent configurations on the same names are not equal")
seed("c23_isolated_variable", "C23", [(CO, "        # remove constraint from dict\n        del(self._constraints[constraint])\n", "        # remove constraint from dict\n        del(self._constraints[constraint])\n\n        # drop the vertices of variables that have no other constraint\n        for var in constraint.variables():\n            if len(self._graph.adjacent_vertices(var)) == 1:\n                self._graph.remove_vertex(var)\n")], '''
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
c = PlusConstraint("a", "b", "c")
g.add_constraint(c)
g.rem_constraint(c)
assert sorted(g.variables()) == ["a", "b", "c"]
g.rem_variable("b")
assert sorted(g.variables()) == ["a", "c"]
''', "removing a variable after its last constraint was removed", "the variable cannot be removed any more")
seed("c23_any_first_unknown", "C23", [(CO, "        for variable in variables:\n            constraints.update(set(self.get_constraints_on(variable)))", "        for variable in variables:\n            if variable not in self._variables:\n                break\n\n            constraints.update(set(self.get_constraints_on(variable)))")], '''
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
c = PlusConstraint("a", "b", "c")
g.add_constraint(c)
assert g.get_constraints_on_any(["x", "a"]) == [c]
''', "an unknown variable before a known one", "the constraints of the later variables are missing")
seed("c29_unset_variables", "C29", [(ME, '        variables = ", ".join([str(element) for element in self._map.keys()])', '        variables = ", ".join([str(element) for element in self._map.keys() if self._map[element] is not None])')], '''
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
g.add_variable("alpha")
assert "alpha" in str(g)
''', "a variable without a value", "its name is missing from the text")
seed("c29_cluster_join", "C29", [(CL, '        var_str = ", ".join([str(var) for var in self.var_list()])', '        var_str = ", ".join(sorted(self.var_list(), key=str)) if all(hasattr(var, "upper") for var in self.var_list()) else str(sorted(self.var_list()))')], '''
from solver.geometric.cluster import Rigid
assert "1" in str(Rigid([1, "b", (2, 3)]))
''', "names of several types in one cluster", "rendering the cluster raises an error")
seed("c08_value_by_identity", "C08", [(ME, "            if var in outmap:\n                self._map[var] = outmap[var]\n                self._changed[var] = 1", "            if var in outmap:\n                if self._map[var] is not outmap[var]:\n                    self._changed[var] = 1\n                self._map[var] = outmap[var]")], '''
from solver.method import MethodGraph, Method, AssignMethod
class Same(Method):
    def execute(self, m):
        box.append(m["a"])
        return {"b": box}
class Len(Method):
    def execute(self, m):
        return {"c": len(m["b"])}
box = []
g = MethodGraph()
g.add_variable("a", 1)
g.add_method(Same("same", ["a"], ["b"]))
g.add_method(Len("len", ["b"], ["c"]))
g.set("a", 5)
assert g.get("c") == len(g.get("b")), (g.get("c"), g.get("b"))
''', "a method that gives the same mutable object again with other contents", "the methods after it are not executed again")
seed("c07_own_input", "C07", [(ME, "            elif len(self._graph.path(var, var)) != 0:", "            elif var not in met.inputs and len(self._graph.path(var, var)) != 0:")], '''
from solver.method import MethodGraph, AddMethod, MethodGraphCycleException
g = MethodGraph()
try:
    g.add_method(AddMethod("a", "b", "a"), prop=False)
except MethodGraphCycleException:
    pass
else:
    raise AssertionError("a method that determines its own input is accepted")
''', "a method whose output is one of its inputs", "the cycle is accepted")
seed("c07_rejected_dangling", "C07", [(ME, "        if met in self._methods:\n            return\n\n        self._methods[met] = 1", "        if self._graph.has_vertex(met):\n            return\n\n        self._methods[met] = 1"), (ME, "        del(self._methods[met])\n        self._graph.remove_vertex(met)", "        del(self._methods[met])\n\n        for var in met.inputs:\n            if self._graph.has_edge(var, met):\n                self._graph.remove_edge(var, met)\n        for var in met.outputs:\n            if self._graph.has_edge(met, var):\n                self._graph.remove_edge(met, var)")], '''
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
m = AssignMethod("b", "a")
g.add_method(m)
g.rem_method(m)
g.add_method(m)
assert list(g.methods()) == [m]
''', "a method that is removed and added again", "the method is not registered the second time")
seed("c04_any_edge", "C04", [(GR, "        return self.has_edge(v1, v2) or self.has_edge(v2, v1)", "        return v2 in self._forward.get(v1, ()) or v2 in self._reverse.get(v1, {v2: 1} if v1 == v2 else ())")], '''
from solver.graph import Graph
g = Graph()
g.add_edge(1, 2)
assert g.has_any_edge(2, 1) and not g.has_any_edge(3, 3) and not g.has_any_edge(1, 1)
''', "a vertex that is not in the graph, asked with itself", "an edge is reported that does not exist")
seed("c09_in_place", "C09", [(ME, "            out_map[c] = in_map[a] - in_map[b]", "            value = in_map[a]\n            value -= in_map[b]\n            out_map[c] = value")], '''
from solver.method import SubMethod
m = SubMethod("a", "b", "c")
values = {"a": {1, 2, 3}, "b": {3}}
assert m.execute(values) == {"c": {1, 2}}
assert values == {"a": {1, 2, 3}, "b": {3}}, values
''', "values of a mutable type", "the first input's value is changed")
seed("c09_float", "C09", [(ME, "            out_map[c] = in_map[a] + in_map[b]", "            out_map[c] = sum([in_map[a], in_map[b]])")], '''
from solver.method import AddMethod
m = AddMethod("a", "b", "c")
assert m.execute({"a": "x", "b": "y"}) == {"c": "xy"}
''', "values that are not numbers", "adding them raises an error")
seed("c11_ge_defaults", "C11", [(GE, "        return a > b or cls.tol_eq(a, b, *args, **kwargs)", "        return a > b or cls.tol_eq(a, b, *args)")], '''
from solver.geometry import Scalar
assert Scalar.tol_ge(1.0, 1.2, abs_tol=0.5)
assert Scalar.tol_ge(1.0, 1.2, 0.0, 0.5)
''', "a tolerance given by keyword", "the default is used in its place")
seed("c11_order_of_tolerances", "C11", [(GE, "        if rel_tol is None:\n            rel_tol = cls.rel_tol", "        if not rel_tol:\n            rel_tol = cls.rel_tol")], '''
from solver.geometry import Scalar
assert not Scalar.tol_eq(100.0, 100.0001, 0, 1e-8)
assert not Scalar.tol_eq(100.0, 100.0001, rel_tol=0.0)
''', "a relative tolerance of zero", "the default takes its place")
seed("c14_far_centres", "C14", [(GE, "    if Scalar.tol_le(d, 0):\n        # no solutions", "    if p1.tol_eq(p2):\n        # no solutions")], '''
from solver.geometry import cc_int, Vector
r = cc_int(Vector(50000.0, 0.0), 1.0, Vector(50000.25, 0.0), 1.0)
assert len(r) == 2, r
''', "distinct centres far from the origin", "no points are returned for circles that intersect")
seed("c17_flat_repeats", "C17", [(GE, "    perp_u = Vector(-u.y, u.x)\n\n    return Scalar.tol_zero(perp_u.dot(v), 0)", "    perp_u = Vector(-u.y, u.x)\n\n    return Scalar.tol_zero(perp_u.dot(v), 0) or p1.tol_eq(p3)")], '''
from solver.geometry import *
p = Vector(1000.0, 0.0), Vector(0.0, 5.0), Vector(1000.005, 0.0)
assert [is_clockwise(*p), is_counterclockwise(*p), is_flat(*p)].count(True) == 1
''', "first and third point close together and far from the second", "the triangle is both flat and oriented")
seed("c18_right_reflex", "C18", [(GE, "    return Scalar.tol_gt(abs(angle), math.pi / 2)", "    return Scalar.tol_lt(math.pi / 2, abs(angle))")], '''
from solver.geometry import *
import math
a = math.pi / 2 + 1.5708e-5 + 5e-9
p1, p2 = Vector(1.0, 0.0), Vector(0.0, 0.0)
lo, hi = math.pi / 2 * (1 + 1e-5) + 1e-8, math.pi / 2
bad = None
for k in range(2000):
    t = lo - 2e-9 + k * 2e-12
    p3 = Vector(math.cos(t), math.sin(t))
    g = abs(angle_3p(p1, p2, p3))
    assert is_obtuse(p1, p2, p3) == Scalar.tol_gt(g, math.pi / 2), t
''', "an angle at the very edge of the tolerance band", "the wrong value's magnitude sets the tolerance")
seed("c20_select_missing", "C20", [(CF, "        for v in variables:\n            new_mapping[v] = self.mapping[v]\n\n        # create", "        wanted = list(variables)\n\n        for v in self.mapping:\n            if v in wanted or str(v) in wanted:\n                new_mapping[v] = self.mapping[v]\n\n        # create")], '''
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
c = Configuration({1: Vector(0, 0), "1": Vector(1, 0), 2: Vector(5, 5)})
assert set(c.select(["1"]).vars()) == {"1"}
''', "two names that print alike", "a point is selected that was not requested")
seed("c26_four_shared", "C26", [(CL, "                for k in range(j+1, len(shared)):\n                    # get variables\n                    v1 = shared[i]\n                    v2 = shared[j]\n                    v3 = shared[k]", "                for k in range(j+1, min(len(shared), i + 5)):\n                    # get variables\n                    v1 = shared[i]\n                    v2 = shared[j]\n                    v3 = shared[k]")], '''
from solver.geometric.cluster import Rigid
for n in (3, 5, 6, 8):
    assert len(Rigid(range(n)).common_angles(Rigid(range(n)))) == n * (n - 1) * (n - 2) // 2, n
''', "more than five shared points", "angles of some triples are missing")
seed("c01_value_object", "C01", [(GR, "            self._forward[v1][v2] = value\n            self._reverse[v2][v1] = value\n\n    def set_bi_edge", "            old = self._forward[v1][v2]\n            self._forward[v1][v2] = value\n            if old != value:\n                self._reverse[v2][v1] = value\n\n    def set_bi_edge")], '''
from solver.graph import Graph
g = Graph()
g.set("a", "b", 1)
g.set("a", "b", True)
assert g._forward["a"]["b"] is g._reverse["b"]["a"]
''', "a value overwritten by an equal one of another type", "the two views hold different objects")
seed("c15_far_tangent", "C15", [(GE, "    elif Scalar.tol_zero(E):", "    elif Scalar.tol_eq(r * r * d2, D * D):")], '''
from solver.geometry import cl_int, Vector
r = cl_int(Vector(0, 0), 100.0, Vector(0, 100.0004), Vector(1, 0))
assert r == [], r
''', "a large circle missed by a line by little", "a point is returned that is not on both")
seed("c27_lgamma", "C27", [(CL, "    def n_angles(self):\n        return int(binom(len(self.vars), 3) * 3)\n\nclass Hedgehog", "    def n_angles(self):\n        n = len(self.vars)\n\n        if n < 3:\n            return 0\n\n        # n! / (n - 3)! / 2 without large factorials\n        return int(round(math.exp(math.lgamma(n + 1) - math.lgamma(n - 2)) / 2))\n\nclass Hedgehog"), (CL, "import abc\n", "import abc\nimport math\n")], '''
from solver.geometric.cluster import Rigid
for n in (0, 1, 2, 3, 4, 10, 100, 20000):
    assert Rigid(range(n)).n_angles() == n * (n - 1) * (n - 2) // 2, n
''', "a rigid on thousands of points", "the number of angles is off by rounding")
seed("c12_sub_scalar", "C12", [(GE, "        return self.__class__(self.x - other_x, self.y - other_y)", "        return self + -1 * other_x if other_x == other_y else self.__class__(self.x - other_x, self.y - other_y)"), (GE, "        return self.__class__(self.x + other_x, self.y + other_y)", "        if not other_x:\n            self.elements[1][0] += other_y\n            return self.__class__(self.x, self.y)\n\n        return self.__class__(self.x + other_x, self.y + other_y)")], '''
from solver.geometry import Vector
p = Vector(1.0, 2.0)
q = p + Vector(0.0, 3.0)
assert (p.x, p.y) == (1.0, 2.0) and (q.x, q.y) == (1.0, 5.0), (p, q)
''', "a vector added that has no first component", "the first operand changes")
seed("c13_transpose_alias", "C13", [(GE, "        t_matrix = []\n\n        for row", "        t_matrix = []\n\n        # a single element is its own transpose\n        if self.num_elements == 1:\n            return Matrix(self.elements)\n\n        for row")], '''
from solver.geometry import Matrix
m = Matrix([[1.23456789]])
t = m.transpose()
t.round(2)
assert m.elements == [[1.23456789]], m.elements
''', "rounding the transpose of a 1x1 matrix in place", "the original is rounded too")
