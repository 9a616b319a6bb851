"""Edits of solver/graph.py that keep the behaviour: other idioms."""
F = "graph.py"
CHECKS = "C01 C02 C03 C04 C05 C06 C07 C08 C23 C29"
REFS = {
"graph_modern": [
('''        for u in list(self.ingoing_vertices(vertex)):
            self.remove_edge(u, vertex)
        for w in list(self.outgoing_vertices(vertex)):
            self.remove_edge(vertex, w)

        # remove vertex in dicts
        del self._forward[vertex]
        del self._reverse[vertex]
''', '''        for u in self._reverse.pop(vertex):
            self._forward[u].pop(vertex)

        for w in self._forward.pop(vertex):
            if w != vertex:
                self._reverse[w].pop(vertex)
'''),
('''        # empty list
        l = []

        for i in self._forward:
            for j in self._forward[i]:
                l.append((i, j))

        return l
''', '''        return [(i, j) for i, targets in self._forward.items() for j in targets]
'''),
('''        if vertex in self._forward:
            # already in dict
            return

        # add vertex to each dict
        self._forward[vertex] = {}
        self._reverse[vertex] = {}
''', '''        for table in (self._forward, self._reverse):
            table.setdefault(vertex, {})
'''),
('''        return list(set(self.ingoing_vertices(vertex))
            | set(self.outgoing_vertices(vertex)))
''', '''        found = {**self._reverse[vertex], **self._forward[vertex]}

        return list(found)
'''),
('''        # copy associated edges
            for w in self._forward[v]:
                if w in vertices:
                    # copy over the edge's value
                    g.set(v, w, self.get(v, w))
''', '''        # copy associated edges
            for w, value in self._forward[v].items():
                if w in vertices:
                    g.set(v, w, value)
'''),
('''        while len(front) > 0:
            # get next connected vertex
            x = front.pop()

            # add vertex to dict
            if x not in connected:
                # add vertex
                connected[x] = 1

                # add connected vertices to search list
                front += vertex_edge_func(x)

        # delete the supplied vertex
        del connected[vertex]

        # convert result to a list
        return list(connected)
''', '''        while front:
            # get next connected vertex
            x = front.pop()

            if x in connected:
                continue

            connected[x] = True
            front.extend(vertex_edge_func(x))

        return [x for x in connected if x != vertex]
'''),
('''        # set of vertices to get subsets for
        to_check = set(self.vertices())

        # empty set of subsets
        subsets = set()

        while len(to_check) > 0:
            # get next vertex
            vertex = to_check.pop()

            # set of vertices connected to this one
            connected = set(self.connected(vertex))

            # remove vertices connected to this one from check list
            to_check -= connected

            # add this vertex to the list of connected vertices
            connected.add(vertex)

            # add this subset to the set
            subsets.add(frozenset(connected))

        return subsets
''', '''        return {frozenset([vertex] + self.connected(vertex)) for vertex in self._forward}
'''),
],
"graph_path_set": [
('''        while len(consider) > 0:
            # next key to consider
            key = consider.pop()

            # current path
            this_path = trails[key]

            for v in self.outgoing_vertices(key):
                if v == end:
                    # found the end, so return the path we have taken
                    return this_path + [v]
                elif v not in trails:
                    # add vertex to trails taken
                    trails[v] = this_path + [v]

                    # add the vertex to the list to be searched
                    consider.append(v)
                elif len(this_path) + 1 < len(trails[v]):
                    # this trail is shorter than a previous one, so overwrite
                    trails[v] = this_path + [v]
''', '''        while consider:
            key = consider.pop(0)

            for v in self._forward[key]:
                trail = trails[key] + [v]

                if v == end:
                    return trail

                if v not in trails:
                    consider.append(v)
                    trails[v] = trail
'''),
('''        if ingoing and outgoing:
            vertex_edge_func = self.adjacent_vertices
        elif ingoing:
            vertex_edge_func = self.ingoing_vertices
        else:
            vertex_edge_func = self.outgoing_vertices
''', '''        if ingoing:
            vertex_edge_func = self.adjacent_vertices if outgoing else self.ingoing_vertices
        else:
            vertex_edge_func = self.outgoing_vertices
'''),
('''            if x not in connected:
                # add vertex
                connected[x] = 1

                # add connected vertices to search list
                front += vertex_edge_func(x)
''', '''            if x not in connected:
                connected[x] = 1
                front += [y for y in vertex_edge_func(x) if y not in connected]
'''),
('''            # remove vertices connected to this one from check list
            to_check -= connected

            # add this vertex to the list of connected vertices
            connected.add(vertex)

            # add this subset to the set
            subsets.add(frozenset(connected))
''', '''            to_check.difference_update(connected)
            subsets.add(frozenset(connected | {vertex}))
'''),
],
}
