"""Edits of solver/graph.py that keep the behaviour."""
F = "graph.py"
CHECKS = "C01 C02 C03 C04 C05 C06 C07 C08 C23 C29"
REFS = {
"graph_helpers": [
('''        # remove edges from dicts
        del self._forward[v1][v2]
        del self._reverse[v2][v1]

    def add_bi_edge''', '''        self._drop_edge(v1, v2)

    def _drop_edge(self, source, target):
        """Remove edge from both dicts"""
        for table, a, b in ((self._forward, source, target), (self._reverse, target, source)):
            del table[a][b]

    def add_bi_edge'''),
('''        # add vertices
        if v1 not in self._forward:
            self.add_vertex(v1)

        if v2 not in self._forward:
            self.add_vertex(v2)

        # add edge
        if v2 not in self._forward[v1]:
            self._forward[v1][v2] = value

        # and the reverse edge
        if v1 not in self._reverse[v2]:
            self._reverse[v2][v1] = value
''', '''        for vertex in (v1, v2):
            self.add_vertex(vertex)

        self._forward[v1].setdefault(v2, value)
        self._reverse[v2].setdefault(v1, value)
'''),
('''        if not self.has_edge(v1, v2):
            # add new edge and set value
            self.add_edge(v1, v2, value)
        else:
            # set edge value
            self._forward[v1][v2] = value
            self._reverse[v2][v1] = value

    def set_bi''', '''        if self.has_edge(v1, v2):
            self._write(v1, v2, value)
            return

        self.add_edge(v1, v2, value)

    def _write(self, v1, v2, value):
        self._reverse[v2][v1] = self._forward[v1][v2] = value

    def set_bi'''),
('''        if v1 not in self._forward:
            return False

        return v2 in self._forward[v1]
''', '''        return v1 in self._forward and v2 in self._forward[v1]
'''),
('''        # work out which edge function to use
        if ingoing and outgoing:
            vertex_edge_func = self.adjacent_vertices
        elif ingoing:
            vertex_edge_func = self.ingoing_vertices
        else:
            vertex_edge_func = self.outgoing_vertices
''', '''        vertex_edge_func = self._neighbour_function(ingoing, outgoing)
'''),
('''    def connected_via_outgoing''', '''    def _neighbour_function(self, ingoing, outgoing):
        if not ingoing:
            return self.outgoing_vertices

        return self.adjacent_vertices if outgoing else self.ingoing_vertices

    def connected_via_outgoing'''),
],
"graph_loops": [
('''        # empty list
        l = []

        for i in self._forward:
            for j in self._forward[i]:
                l.append((i, j))

        return l
''', '''        return [(i, j) for i, targets in self._forward.items() for j in targets]
'''),
('''        # remove edges going to and from vertex
        for u in list(self.ingoing_vertices(vertex)):
            self.remove_edge(u, vertex)
        for w in list(self.outgoing_vertices(vertex)):
            self.remove_edge(vertex, w)
''', '''        # remove edges going to and from vertex
        for source, target in self.adjacent_edges(vertex):
            self.remove_edge(source, target)
'''),
('''        for v in filter(self.has_vertex, vertices):
            # vertex is in the list, so add to new graph
            g.add_vertex(v)

            # copy associated edges
            for w in self._forward[v]:
                if w in vertices:
                    # copy over the edge's value
                    g.set(v, w, self.get(v, w))

        return g
''', '''        kept = [v for v in vertices if self.has_vertex(v)]

        for v in kept:
            g.add_vertex(v)

        for v in kept:
            for w, value in self._forward[v].items():
                if w in vertices:
                    g.set(v, w, value)

        return g
'''),
('''        # add vertices, including those without edges
        for vertex in self.vertices():
            g.add_vertex(vertex)

        # add swapped edges with their values
        for v1, v2 in self.edges():
            g.add_edge(v2, v1, self.get(v1, v2))
''', '''        for v1, targets in self._forward.items():
            g.add_vertex(v1)

            for v2, value in targets.items():
                g.add_edge(v2, v1, value)
'''),
('''        while len(front) > 0:
            # get next connected vertex
            x = front.pop()

            # add vertex to dict
            if x not in connected:
                # add vertex
                connected[x] = 1

                # add connected vertices to search list
                front += vertex_edge_func(x)

        # delete the supplied vertex
        del connected[vertex]

        # convert result to a list
        return list(connected)
''', '''        while front:
            x = front.pop()

            if x in connected:
                continue

            connected[x] = 1

            for y in vertex_edge_func(x):
                front.append(y)

        return [x for x in connected if x != vertex]
'''),
('''        while len(to_check) > 0:
            # get next vertex
            vertex = to_check.pop()

            # set of vertices connected to this one
            connected = set(self.connected(vertex))

            # remove vertices connected to this one from check list
            to_check -= connected

            # add this vertex to the list of connected vertices
            connected.add(vertex)

            # add this subset to the set
            subsets.add(frozenset(connected))

        return subsets
''', '''        while to_check:
            vertex = next(iter(to_check))
            component = frozenset(self.connected(vertex)) | {vertex}
            to_check -= component
            subsets.add(component)

        return subsets
'''),
('''            for v in self.outgoing_vertices(key):
                if v == end:
                    # found the end, so return the path we have taken
                    return this_path + [v]
                elif v not in trails:
                    # add vertex to trails taken
                    trails[v] = this_path + [v]

                    # add the vertex to the list to be searched
                    consider.append(v)
                elif len(this_path) + 1 < len(trails[v]):
                    # this trail is shorter than a previous one, so overwrite
                    trails[v] = this_path + [v]
''', '''            for v in self.outgoing_vertices(key):
                extended = this_path + [v]

                if v == end:
                    return extended

                if v not in trails:
                    consider.append(v)
                    trails[v] = extended
                elif len(extended) < len(trails[v]):
                    trails[v] = extended
'''),
('''        return list(set(self.ingoing_vertices(vertex))
            | set(self.outgoing_vertices(vertex)))
''', '''        adjacent = set(self.ingoing_vertices(vertex))
        adjacent.update(self.outgoing_vertices(vertex))

        return list(adjacent)
'''),
],
"graph_style": [
('''        if graph:
            # copy vertices
            for vertex in graph.vertices():
                self.add_vertex(vertex)

            # set up edges between vertices
            for v, w in graph.edges():
                self.set(v, w, graph.get(v, w))
''', '''        if not graph:
            return

        for v in graph.vertices():
            self.add_vertex(v)

        for edge in graph.edges():
            v, w = edge
            self.add_edge(v, w, graph.get(v, w))
'''),
('''        if vertex in self._forward:
            # already in dict
            return

        # add vertex to each dict
        self._forward[vertex] = {}
        self._reverse[vertex] = {}
''', '''        if not self.has_vertex(vertex):
            self._reverse[vertex] = dict()
            self._forward[vertex] = dict()
'''),
('''        if vertex not in self._forward:
            raise Exception("Vertex not in graph")
''', '''        if not self.has_vertex(vertex):
            raise Exception("Vertex not in graph: cannot remove it")
'''),
('''        # remove vertex in dicts
        del self._forward[vertex]
        del self._reverse[vertex]
''', '''        # remove vertex in dicts
        self._reverse.pop(vertex)
        self._forward.pop(vertex)
'''),
('''        return self.subgraph(self.vertices())
''', '''        return Graph(self)
'''),
('''        return list(self._forward.keys())
''', '''        return list(self._forward)
'''),
('''        return list(self._forward[vertex].keys())
''', '''        return [w for w in self._forward[vertex]]
'''),
('''        return self.connected(ingoing=False, outgoing=True, *args, **kwargs)
''', '''        return self.connected(*args, ingoing=False, outgoing=True, **kwargs)
'''),
('''        # map from vertices to shortest path to that key vertex
        trails = {}

        # set start vertex
        trails[start] = [start]
''', '''        trails = {start: [start]}
'''),
('''        while len(consider) > 0:
            # next key''', '''        while consider:
            # next key'''),
('''        for i in self._forward:
            v = ", ".join(["{0}: {1}".format(j, self.get(i, j)) for j in self._forward[i]])

            s += "{0}: {{{1}}}".format(i, v)

        return "{{{0}}}".format(s)''', '''        for i, targets in self._forward.items():
            v = ", ".join("{0}: {1}".format(j, value) for j, value in targets.items())

            s = s + "{0}: {{{1}}}".format(i, v)

        return "{" + s + "}"'''),
('''        self.remove_edge(v1, v2)

        # a loop is its own reverse
        if v1 != v2:
            self.remove_edge(v2, v1)
''', '''        if v1 != v2:
            self.remove_edge(v2, v1)

        self.remove_edge(v1, v2)
'''),
],
"graph_path_by_parents": [
('''        # map from vertices to shortest path to that key vertex
        trails = {}

        # set start vertex
        trails[start] = [start]

        # list of vertices to consider
        consider = [start]

        # loop until there are no vertices to consider
        while len(consider) > 0:
            # next key to consider
            key = consider.pop()

            # current path
            this_path = trails[key]

            for v in self.outgoing_vertices(key):
                if v == end:
                    # found the end, so return the path we have taken
                    return this_path + [v]
                elif v not in trails:
                    # add vertex to trails taken
                    trails[v] = this_path + [v]

                    # add the vertex to the list to be searched
                    consider.append(v)
                elif len(this_path) + 1 < len(trails[v]):
                    # this trail is shorter than a previous one, so overwrite
                    trails[v] = this_path + [v]

        # no path found
        return []
''', '''        # predecessor of every vertex reached so far
        previous = {start: None}
        queue = [start]

        while queue:
            key = queue.pop(0)

            for v in self.outgoing_vertices(key):
                if v == end:
                    trail = [v]

                    while True:
                        trail.append(key)

                        if key == start:
                            break

                        key = previous[key]

                    trail.reverse()

                    return trail

                if v not in previous:
                    previous[v] = key
                    queue.append(v)

        return []
'''),
('''        connected = {}

        # loop until there are no more connected vertices to follow
        while len(front) > 0:
            # get next connected vertex
            x = front.pop()

            # add vertex to dict
            if x not in connected:
                # add vertex
                connected[x] = 1

                # add connected vertices to search list
                front += vertex_edge_func(x)

        # delete the supplied vertex
        del connected[vertex]

        # convert result to a list
        return list(connected)
''', '''        seen = {vertex}

        while front:
            x = front.pop()

            for y in vertex_edge_func(x):
                if y not in seen:
                    seen.add(y)
                    front.append(y)

        seen.discard(vertex)

        return list(seen)
'''),
],
}
