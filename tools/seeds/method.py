M = "solver/method.py"
seed("c07_rejected_undetermined", "C07", [(M, "            if len(self._graph.ingoing_vertices(var)) > 1:", "            if self._map[var] is not None and len(self._graph.ingoing_vertices(var)) > 1:")], '''
from solver.method import MethodGraph, AddMethod, SubMethod, MethodGraphDetermineException
g = MethodGraph()
for n in "abc":
    g.add_variable(n)
g.add_method(AddMethod("a", "b", "c"))
try:
    g.add_method(SubMethod("a", "b", "c"))
except MethodGraphDetermineException:
    pass
else:
    raise AssertionError("two methods determine c")
''', "two methods for a variable that has no value yet", "the second method is accepted")
seed("c07_cycle_first_output", "C07", [(M, "            elif len(self._graph.path(var, var)) != 0:", "            elif var == met.outputs[0] and len(self._graph.path(var, var)) != 0:")], '''
from solver.method import MethodGraph, Method, AssignMethod, MethodGraphCycleException
class Two(Method):
    def execute(self, m):
        return {o: 1 for o in self.outputs}
g = MethodGraph()
g.add_method(AssignMethod("a", "y"))
try:
    g.add_method(Two("two", ["a"], ["x", "y"]))
except MethodGraphCycleException:
    pass
else:
    raise AssertionError("a cycle through the second output is accepted")
''', "a method with two outputs whose second output closes a cycle", "the method is accepted and propagation may never end")
seed("c07_pending_removed", "C07", [(M, "        if varname in self._changed:\n            del(self._changed[varname])", "        if self._changed.get(varname) and len(self._changed) == 1:\n            self._changed.clear()")], '''
from solver.method import MethodGraph
g = MethodGraph()
g.add_variable("a")
g.add_variable("b")
g.set("a", 1, prop=False)
g.set("b", 2, prop=False)
g.rem_variable("a")
g.propagate()
assert list(g.variables()) == ["b"] and g.get("b") == 2
''', "removing a variable while its change and another's are pending", "a removed variable stays pending and the next propagation fails")
seed("c08_none_not_passed_on", "C08", [(M, "                if self._map[var] != None:\n                    self._changed[var] = 1\n                    self._map[var] = None", "                if self._map[var] != None:\n                    self._map[var] = None")], '''
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable("a", 1)
g.add_method(AssignMethod("b", "a"))
g.add_method(AssignMethod("c", "b"))
assert g.get("c") == 1
g.set("a", None)
assert g.get("b") is None and g.get("c") is None, (g.get("b"), g.get("c"))
''', "a chain of two methods whose first input is set back to None", "the second output keeps its old value")
seed("c10_single_in_recursion", "C10", [(M, "        if len(multi_inputs) > 0:", "        if len(multi_inputs) > 0 and inmap[multi_inputs[0]]:")], '''
from solver.method import MultiVariable, SumProdMethod
x, z = MultiVariable("x"), MultiVariable("z")
m = SumProdMethod(x, 3, z)
r = m.execute({x: [], 3: 3})[z]
assert len(r) == 0, r
''', "a multi-valued input with no values at all", "the execution fails instead of giving no values")

seed("c08_falsy_result", "C08", [(M, "            if var in outmap:\n                self._map[var] = outmap[var]", "            if outmap.get(var):\n                self._map[var] = outmap[var]")], '''
from solver.method import MethodGraph, SubMethod
g = MethodGraph()
g.add_variable("a", 3)
g.add_variable("b", 3)
g.add_method(SubMethod("a", "b", "c"))
assert g.get("c") == 0 and g.get("c") is not None, g.get("c")
''', "a method that computes 0 (or another false value)", "the output becomes None")
seed("c09_zero", "C09", [(M, "        and in_map[a] != None and in_map[b] != None:", "        and in_map[a] and in_map[b] != None:")], '''
from solver.method import AddMethod
assert AddMethod("a", "b", "c").execute({"a": 0, "b": 2}) == {"c": 2}
''', "an addition whose first input is 0", "the result is empty")
seed("c09_keeps_previous", "C09", [(M, "        out_map = {}", "        out_map = dict((k, in_map[k]) for k in in_map if k == self.outputs[0])")], '''
from solver.method import AddMethod
assert AddMethod("a", "b", "c").execute({"a": None, "b": 2, "c": 7}) == {}
''', "an input that is None while the input mapping has the output's previous value", "the previous value is given instead of an empty mapping")
seed("c10_lost_first", "C10", [(M, "            output = set()\n", "            output = set(values) if not multi_inputs[1:] and len(base_inmap) == 0 else set()\n")], '''
from solver.method import MultiVariable, MultiMethod
class Double(MultiMethod):
    def multi_execute(self, inmap):
        return [2 * inmap[self.inputs[0]]]
x, z = MultiVariable("x"), MultiVariable("z")
r = Double("double", [x], [z]).execute({x: [1, 5]})[z]
assert sorted(r) == [2, 10], r
''', "a method whose only input is multi-valued", "the input values are mixed into the output")
