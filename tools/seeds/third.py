GR, ME, GE = "solver/graph.py", "solver/method.py", "solver/geometry.py"
CO, CL, RE, CF = ["solver/geometric/%s.py" % n for n in ("constraint", "cluster", "relation", "configuration")]

seed("c02_falsy_kept", "C02", [(GR, "        if v2 not in self._forward[v1]:\n            self._forward[v1][v2] = value", "        if not self._forward[v1].get(v2):\n            self._forward[v1][v2] = value"),
                               (GR, "        if v1 not in self._reverse[v2]:\n            self._reverse[v2][v1] = value", "        if not self._reverse[v2].get(v1):\n            self._reverse[v2][v1] = value")], '''
from solver.graph import Graph
g = Graph()
g.add_edge("a", "b", 0)
g.add_edge("a", "b", 5)
assert g.get("a", "b") == 0, g.get("a", "b")
''', "adding an edge that exists with a false value", "the existing value is overwritten")
seed("c03_subgraph_count", "C03", [(GR, "        # new empty graph\n        g = Graph()\n\n        for v in filter", "        # new empty graph\n        g = Graph()\n\n        if len(vertices) == len(self._forward):\n            vertices = self.vertices()\n\n        for v in filter")], '''
from solver.graph import Graph
g = Graph()
g.add_edge("a", "b")
assert sorted(g.subgraph(["a", "b"]).vertices()) == ["a", "b"]
assert g.subgraph(["a", "zz"]).vertices() == ["a"]
''', "as many requested vertices as the graph has, not all of them in it", "the subgraph has vertices nobody asked for")
seed("c06_subsets_outgoing", "C06", [(GR, "            connected = set(self.connected(vertex))", "            connected = set(self.connected(vertex, ingoing=bool(self._reverse[vertex]) or not self._forward[vertex]))")], '''
from solver.graph import Graph
for n in range(8):
    g = Graph()
    names = ["v%i%i" % (n, k) for k in range(3)]
    g.add_edge(names[0], names[2])
    g.add_edge(names[1], names[2])
    assert g.connected_subsets() == {frozenset(names)}, g.connected_subsets()
''', "a subset found from a vertex without ingoing edges", "vertices of one component land in different subsets")
seed("c16_origin_shortcut", "C16", [(GE, "    # check len(s) > 0 and a1 >= 0 and a2 >= 0 within tolerance\n    if len(s) > 0 and", "    # an origin on both rays\n    if len(s) > 0 and (s[0].tol_eq(p1) or s[0].tol_eq(p2)):\n        return s\n    elif len(s) > 0 and")], '''
from solver.geometry import rr_int, Vector
assert rr_int(Vector(0, 0), Vector(1, 0), Vector(-1, 0), Vector(0, 1)) == []
assert len(rr_int(Vector(0, 0), Vector(1, 0), Vector(0, -1), Vector(0, 1))) == 1
''', "the crossing is the origin of one ray and behind the other", "a point behind a ray is returned")
seed("c18_straight", "C18", [(GE, "    if is_counterclockwise(p1, p2, p3):\n        # flip angle", "    if not is_clockwise(p1, p2, p3):\n        # flip angle")], '''
import math
from solver.geometry import angle_3p, Vector
a = angle_3p(Vector(0, 0), Vector(1, 0), Vector(2, 0))
assert abs(a - math.pi) < 1e-9, a
''', "three points in a line", "a straight angle is negative although the points are flat")
seed("c20_nothing_new", "C20", [(CF, "        # empty dict of new coordinates\n        new_mapping = {}\n\n        # FIXME: just deep copy", "        # nothing to add\n        if all(v in self.mapping for v in c.mapping):\n            return self\n\n        # empty dict of new coordinates\n        new_mapping = {}\n\n        # FIXME: just deep copy")], '''
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({"a": Vector(0, 0), "b": Vector(1, 0)})
b = Configuration({"b": Vector(5, 5)})
c = a.add(b)
assert c is not a
c.underconstrained = True
assert a.underconstrained is False
''', "a second configuration without new names", "no new configuration is made, and a later merge sets the flag of its operand")
seed("c21_flag_of_operand", "C21", [(CF, "        # add the transformed version of other configuration to this one\n        merged_configuration = self.add(other.transform(t))\n", "        # add the transformed version of other configuration to this one\n        merged_configuration = self.add(other.transform(t)) \\\n        if set(other.vars()) - set(self.vars()) else self\n")], '''
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({"a": Vector(0, 0), "b": Vector(1, 0)})
b = Configuration({"b": Vector(5, 5), "a": Vector(5, 5)})
m, under = a.merge(b)
assert under and m.underconstrained and not a.underconstrained
''', "merging a configuration without new points, underconstrained", "the operand becomes underconstrained")
seed("c22_relative_position", "C22", [(CF, "                d = distance_2p(other_t.get(var), self.get(var))\n\n                # check if d is >0\n                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):", "                if not other_t.get(var).tol_eq(self.get(var)):")], '''
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({"a": Vector(100000, 100000), "b": Vector(100010, 100000), "c": Vector(100000, 100010)})
b = Configuration({"a": Vector(100000, 100000), "b": Vector(100010, 100000), "c": Vector(100000, 100010.5)})
assert a != b
''', "points far from the origin", "configurations of different shape are equal")
seed("c24_mapping_order", "C24", [(CO, "        return self.function(*[mapping[variable] for variable in \\\n        self._variables]) is True", "        return self.function(*[value for variable, value in mapping.items() \\\n        if variable in self._variables]) is True")], '''
from solver.geometric.constraint import FunctionConstraint
c = FunctionConstraint(lambda a, b: a < b, ["a", "b"])
assert c.satisfied({"a": 1, "b": 2}) and c.satisfied({"b": 2, "a": 1})
''', "a mapping whose order is not that of the variables", "the function gets its values in another order")
seed("c25_two_shared", "C25", [(CL, "        if hedgehog.c_var in self.vars and len(x_vars) >= 2:", "        if hedgehog.c_var in self.vars and len(shared) >= 2:")], '''
from solver.geometric.cluster import Rigid, Hedgehog
assert Rigid(["a", "b"]).intersection(Hedgehog("a", ["b", "c"])) is None
''', "a rigid and a hedgehog that share the centre and one outer point", "the intersection raises an error")
seed("c25_balloon_inside", "C25", [(CL, "        # intersection is a balloon\n        return Balloon(shared)", "        # intersection is a balloon\n        if shared == self.vars:\n            return self\n\n        return Balloon(shared)"), (CL, "        # shared variables except the hedgehog's central variable\n        x_vars = set(shared) - set([hedgehog.c_var])", "        # shared variables except the hedgehog's central variable\n        x_vars = hedgehog.x_vars\n        x_vars &= self.vars")], '''
from solver.geometric.cluster import Rigid, Hedgehog
h = Hedgehog("a", ["b", "c", "d"])
r = Rigid(["a", "b", "c"])
assert h.intersection(r).x_vars == {"b", "c"}
assert h.x_vars == {"b", "c", "d"}
''', "an intersection with a hedgehog", "the hedgehog loses its outer points")
seed("c26_subset_shortcut", "C26", [(CL, "        # shared variables between this rigid and the other\n        shared = list(set(self.vars) & set(other.vars))", "        # shared variables between this rigid and the other\n        shared = self.var_list() if self.vars <= other.vars or \\\n        len(self.vars) == len(other.vars) else list(set(self.vars) & set(other.vars))")], '''
from solver.geometric.cluster import Rigid
from solver.geometric.relation import Distance
assert Rigid("abc").common_distances(Rigid("abd")) == {Distance("a", "b")}
''', "two rigids of equal size that are not equal", "distances that only one of them fixes are reported")
seed("c11_larger_value", "C11", [(GE, "        return abs(a - b) <= (abs_tol + rel_tol * abs(b))", "        return abs(a - b) <= max(abs_tol, rel_tol * abs(b))")], '''
from solver.geometry import Scalar
assert Scalar.tol_eq(1 + 1.0005e-5, 1)
''', "a difference between the larger of the two tolerances and their sum", "numbers equal within tolerance compare as different")
seed("c10_shared_input", "C10", [(ME, "            if isinstance(variable, MultiVariable):\n                self.multi_inputs.append(variable)", "            if isinstance(variable, MultiVariable) and str(variable) not in \\\n            [str(multi_input) for multi_input in self.multi_inputs]:\n                self.multi_inputs.append(variable)")], '''
from solver.method import MultiVariable, SumProdMethod
x, y, z = MultiVariable("x"), MultiVariable("x"), MultiVariable("z")
r = SumProdMethod(x, y, z).execute({x: [1, 2], y: [10, 20]})[z]
assert set(r) == {f for a in (1, 2) for b in (10, 20) for f in (a + b, a * b)}
''', "two multi-valued inputs of the same name", "the second is taken for a single value")
seed("c07_method_as_variable", "C07", [(ME, "        if varname in self._changed:\n            del(self._changed[varname])\n", "        self._changed.pop(varname, None)\n        for name in [n for n in self._changed if n == varname or not self._graph.outgoing_vertices(n)]:\n            del(self._changed[name])\n"), (ME, "        for vertex in self._graph.ingoing_vertices(varname):\n            self.rem_method(vertex)\n        for vertex in self._graph.outgoing_vertices(varname):\n            self.rem_method(vertex)", "        for vertex in set(self._graph.ingoing_vertices(varname)) \\\n        | set(self._graph.outgoing_vertices(varname)) & set(self._map):\n            self.rem_method(vertex)")], '''
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
m = AssignMethod("b", "a")
g.add_method(m)
g.rem_variable("a")
assert m not in g.methods()
''', "removing a variable that a method reads", "the method stays registered although its input is gone")
seed("c08_pick_last", "C08", [(ME, "            for method in methods:\n                self._do_execute(method)\n\n            if pick in self._changed:\n                del(self._changed[pick])", "            if pick in self._changed:\n                del(self._changed[pick])\n\n            for method in methods[:1] + [m for m in methods[1:] if not any(o in self._changed for o in m.outputs)]:\n                self._do_execute(method)")], '''
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
for v in "abcd":
    g.add_variable(v)
g.add_method(AssignMethod("b", "a"))
g.add_method(AssignMethod("c", "a"))
g.add_method(AssignMethod("d", "c"))
g.set("a", 1)
g.set("a", 2, False)
g.set("d", 7, False)
g.set("c", 9, False)
g.propagate()
assert g.get("b") == 2 and g.get("c") == 2 and g.get("d") == 2
''', "a determined variable that is pending itself", "its method is not executed again")
