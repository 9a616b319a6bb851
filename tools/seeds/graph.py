G = "solver/graph.py"
seed("c01_loop_edge", "C01", [(G, "        del self._reverse[v2][v1]\n", "        if v1 is not v2:\n            del self._reverse[v2][v1]\n")], '''
from solver.graph import Graph
g = Graph()
g.add_edge("a", "a")
g.remove_edge("a", "a")
assert not g.has_edge("a", "a")
assert g.ingoing_vertices("a") == [], g.ingoing_vertices("a")
''', "removing an edge from a vertex to itself", "the ingoing view still reports the removed edge")
seed("c01_value_of_existing", "C01", [(G, "            self._forward[v1][v2] = value\n            self._reverse[v2][v1] = value", "            self._forward[v1][v2] = value\n            self._reverse[v2].setdefault(v1, value)")], '''
from solver.graph import Graph
g = Graph()
g.set("a", "b", 1)
g.set("a", "b", 2)
assert g._forward["a"]["b"] == g._reverse["b"]["a"] == 2, (g._forward, g._reverse)
''', "setting the value of an edge that exists already", "the reverse view keeps the old value of the edge")
seed("c02_bi_edge_value", "C02", [(G, "        self.add_edge(v2, v1, *args, **kwargs)", "        self.set(v2, v1, *(args or (1,)), **kwargs)")], '''
from solver.graph import Graph
g = Graph()
g.add_edge("b", "a", 7)
g.add_bi_edge("a", "b", 3)
assert g.get("b", "a") == 7 and g.get("a", "b") == 3, (g.get("b", "a"), g.get("a", "b"))
''', "adding a two-way edge where the backward edge exists with another value", "the value of the existing backward edge is overwritten")
seed("c03_falsy_value", "C03", [(G, "                    g.set(v, w, self.get(v, w))", "                    g.add_edge(v, w)\n                    if self.get(v, w):\n                        g.set(v, w, self.get(v, w))")], '''
from solver.graph import Graph
g = Graph()
g.set("a", "b", 0)
g.set("a", "c", None)
h = g.copy()
assert h.get("a", "b") == 0 and h.get("a", "c") is None, (h.get("a", "b"), h.get("a", "c"))
''', "an edge whose value is 0, None or empty", "the copied edge has the value 1 instead")
seed("c04_two_way_edge", "C04", [(G, "        return self.has_edge(v1, v2) or self.has_edge(v2, v1)", "        return self.has_edge(v1, v2) != self.has_edge(v2, v1)")], '''
from solver.graph import Graph
g = Graph()
g.add_bi_edge("a", "b")
assert g.has_any_edge("a", "b"), "an edge in both directions is an edge"
g.add_edge("c", "c")
assert g.has_any_edge("c", "c")
''', "vertices joined in both directions, or a loop", "the membership test denies the edges")
seed("c04_adjacent_loop", "C04", [(G, "        return list(set(self.ingoing_vertices(vertex))\n            | set(self.outgoing_vertices(vertex)))", "        return list((set(self.ingoing_vertices(vertex))\n            | set(self.outgoing_vertices(vertex))) - set([vertex]))")], '''
from solver.graph import Graph
g = Graph()
g.add_edge("a", "a")
g.add_edge("a", "b")
assert sorted(g.adjacent_vertices("a")) == ["a", "b"], g.adjacent_vertices("a")
''', "a vertex with an edge to itself", "the vertex is missing from its adjacent vertices")
seed("c05_own_loop", "C05", [(G, "                if v == end:", "                if v == end and v != key:")], '''
from solver.graph import Graph
g = Graph()
g.add_edge("a", "a")
assert g.path("a", "a") == ["a", "a"], g.path("a", "a")
''', "a path from a vertex to itself over its own loop", "no path is found although there is one")
seed("c06_zigzag", "C06", [(G, "            connected = set(self.connected(vertex))", "            connected = set(self.connected_via_ingoing(vertex)) | set(self.connected_via_outgoing(vertex))")], '''
from solver.graph import Graph
g = Graph()
g.add_edge("a", "b")
g.add_edge("c", "b")
g.add_edge("c", "d")
s = set(frozenset(x) for x in g.connected_subsets())
assert s == {frozenset("abcd")}, s
''', "a component in which some vertices are joined only by changing the direction of travel", "the component is split or reported in overlapping parts")
seed("c06_front_cut", "C06", [(G, "                front += vertex_edge_func(x)", "                front = vertex_edge_func(x) + [y for y in front if y not in vertex_edge_func(x)][:8]")], '''
from solver.graph import Graph
g = Graph()
for i in range(12):
    g.add_edge("hub", i)
    g.add_edge(i, ("leaf", i))
assert len(g.connected("hub")) == 24, len(g.connected("hub"))
assert len(g.connected_subsets()) == 1
''', "a vertex with more than nine neighbours that have neighbours of their own", "vertices beyond the first few neighbours are never visited")
