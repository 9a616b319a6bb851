K, L, F, R = ["solver/geometric/%s.py" % n for n in ("constraint", "cluster", "configuration", "relation")]
seed("c20_homogeneous", "C20", [(F, "            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0] / ph[2][0])", "            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0])")], '''
from solver.geometry import Vector, Matrix
from solver.geometric.configuration import Configuration
c = Configuration({"a": Vector(1, 2)}).transform(Matrix([[1.0, 0, 3], [0, 1.0, 4], [0, 0, 2.0]]))
assert c.get("a") == Vector(2, 3), c
''', "a transform whose last entry is not 1", "the second coordinate is not divided by the homogeneous scale")
seed("c20_copy_flag", "C20", [(F, "        new.underconstrained = self.underconstrained\n", "        new.underconstrained |= self.underconstrained and len(self.mapping) > 1\n")], '''
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
c = Configuration({"a": Vector(1, 2)})
c.underconstrained = True
assert c.copy().underconstrained is True
''', "copying an underconstrained configuration with at most one point", "the copy loses the flag")
seed("c21_one_shared", "C21", [(F, "            if len(self.vars()) > 1 and len(other.vars()) > 1:", "            if len(self.vars()) > 1 or len(other.vars()) > 1:")], '''
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({"a": Vector(1, 2), "b": Vector(3, 4)})
m, under = a.merge(Configuration({"a": Vector(5, 5)}))
assert not under
''', "one shared point that is the only point of the other configuration", "the merge is reported underconstrained")
seed("c21_overlap_other", "C21", [(F, "            if Scalar.tol_zero((p22 - p21).length):", "            if Scalar.tol_zero((p22 - p21).length, abs_tol=0.5):")], '''
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({"a": Vector(0, 0), "b": Vector(0.25, 0)})
b = Configuration({"a": Vector(0, 0), "b": Vector(0, 0.25), "c": Vector(0, 7)})
m, under = a.merge(b)
assert not under and m.get("c").tol_eq(Vector(7, 0)), m
''', "shared points that are near each other but apart", "they are taken for overlapping, so the other configuration is not turned")
seed("c22_hash_collision", "C22", [(F, "        elif len(self.mapping) != len(other.mapping):", "        elif len(self.mapping) > len(other.mapping):")], '''
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
p = {1: Vector(0, 0), 2: Vector(3, 0)}
q = dict(p)
q[0] = Vector(9, 9)
assert not (Configuration(p) == Configuration(q))
''', "name sets whose hash values sum up to the same, such as {1, 2} and {0, 1, 2}", "a configuration equals one with more points")
seed("c22_mirror", "C22", [(F, "                d = distance_2p(other_t.get(var), self.get(var))", "                d = abs(distance_2p(other_t.get(var), self.get(next(iter(self.mapping)))) - distance_2p(self.get(var), self.get(next(iter(self.mapping)))))")], '''
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({"a": Vector(0, 0), "b": Vector(3, 0), "c": Vector(0, 4)})
b = Configuration({"a": Vector(0, 0), "b": Vector(3, 0), "c": Vector(0, -4)})
assert not (a == b)
''', "configurations that agree in the distances from the first point, such as mirror images", "they are equal although not congruent")
seed("c23_all_of_three", "C23", [(K, "            for var in variables[1:]:", "            for var in variables[-1:]:")], '''
from solver.geometric.constraint import ConstraintGraph, PlusConstraint, FunctionConstraint
g = ConstraintGraph()
c = FunctionConstraint(lambda *a: True, ["a", "c"])
g.add_constraint(c)
g.add_variable("b")
assert g.get_constraints_on_all(["a", "b", "c"]) == []
''', "three or more variables of which a middle one is not mentioned", "the constraint is reported although it does not mention all of them")
seed("c23_remove_twice", "C23", [(K, "        for constraint in self.get_constraints_on(var_name):\n            self.rem_constraint(constraint)", "        for constraint in self.get_constraints_on(var_name):\n            if len(set(constraint.variables())) > 1:\n                self.rem_constraint(constraint)")], '''
from solver.geometric.constraint import ConstraintGraph, FunctionConstraint
g = ConstraintGraph()
c = FunctionConstraint(lambda a: True, ["a"])
g.add_constraint(c)
g.rem_variable("a")
assert list(g.constraints()) == []
''', "a constraint that mentions only the removed variable", "it stays registered")
seed("c25_centre_as_outer", "C25", [(L, "        x_vars = self.x_vars & hedgehog.x_vars\n\n        if self.c_var == hedgehog.c_var and len(x_vars) >= 2:", "        x_vars = shared - set([self.c_var])\n\n        if hedgehog.c_var in self.vars and self.c_var in hedgehog.vars and len(x_vars) >= 2:")], '''
from solver.geometric.cluster import Hedgehog
a, b = Hedgehog("p", ["q", "x", "y"]), Hedgehog("q", ["p", "x", "y"])
assert a.intersection(b) is None and b.intersection(a) is None
''', "two hedgehogs with different centres, each of which is an outer point of the other", "a hedgehog is returned although they have no common centre")
seed("c26_balloon_centre", "C26", [(L, "        common_angles = set()\n\n        if hedgehog.c_var not in self.vars:", "        common_angles = set()\n\n        if hedgehog.c_var not in self.vars and len(shared) < 3:")], '''
from solver.geometric.cluster import Rigid, Hedgehog
r, h = Rigid(["x", "y", "z"]), Hedgehog("c", ["x", "y", "z"])
assert len(r.common_angles(h)) == 0 and len(h.common_angles(r)) == 0
''', "three shared outer points with a centre that is not shared", "angles at a point the other cluster does not have are reported")
seed("c28_sorted", "C28", [(R, "            return frozenset(self.points) == frozenset(other.points)", "            return sorted(self.points, key=str) == sorted(other.points, key=str)")], '''
from solver.geometric.relation import Distance
assert Distance(1, "1") == Distance("1", 1)
''', "two different points with the same text", "the same distance asked in the other order is not equal")
seed("c28_angle_hash", "C28", [(R, "        return hash(frozenset(self.points))", "        return hash(frozenset(self.points[:2]))")], '''
from solver.geometric.relation import Angle
a, b = Angle("a", "b", "c"), Angle("c", "b", "a")
assert a == b and hash(a) == hash(b)
''', "equal angles given with their outer points in the other order", "their hash values differ")
seed("c29_percent_tuple", "C29", [(R, "        return \"{0}({1})\".format(self.pretty_name, points)", "        return (\"%s(\" + points + \")\") % self.pretty_name")], '''
from solver.geometric.relation import Distance
assert str(Distance("50%", "b")) == "Distance(50%, b)"
''', "a point whose name contains a percent sign", "rendering fails")
seed("c29_long_names", "C29", [(L, "        return \"{}{}#{}({})\".format(ovr_const, self.pretty_name, id(self), var_str)", "        return \"{}{}#{}({:.60})\".format(ovr_const, self.pretty_name, id(self), var_str)")], '''
from solver.geometric.cluster import Rigid
n = ["point number %d" % i for i in range(9)]
t = str(Rigid(n))
assert all(x in t for x in n), t
''', "a cluster with many points or long names", "the text is cut off and does not mention all points")
seed("c24_reported_order", "C24", [(K, "        [v1, v2, v3], name=\"NotCounterClockwiseConstraint\")", "        [v2, v3, v1], name=\"NotCounterClockwiseConstraint\")")], '''
from solver.geometric.constraint import NotCounterClockwiseConstraint
assert NotCounterClockwiseConstraint("a", "b", "c").variables() == ["a", "b", "c"]
''', "asking the constraint for its variables", "they are reported in another order than given")
seed("c27_many_outer", "C27", [(L, "    def n_angles(self):\n        return int(binom(len(self.vars), 3) * 3)\n\nclass Hedgehog", "    def n_angles(self):\n        return 3 * int(binom(len(self.vars), 3)) if len(self.vars) != 2 else 1\n\nclass Hedgehog")], '''
from solver.geometric.cluster import Rigid
assert Rigid(["a", "b"]).n_angles() == 0
''', "a rigid on two points", "an angle is counted although two points have none")
