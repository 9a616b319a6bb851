"""Edits of solver/geometric/constraint.py that keep the behaviour: other idioms."""
F = "geometric/constraint.py"
CHECKS = "C23 C24 C29"
T = open("/repo/solver/" + F).read()
def part(a, b):
    i = T.index(a)
    return T[i:T.index(b, i) + len(b)]
REFS = {
"constraint_modern": [
(part("        # empty list of shared constraints\n", "        return shared_constraints\n"), '''        return [constraint for constraint in self.get_constraints_on(variables[0])
                if all(var in constraint.variables() for var in variables[1:])]
'''),
(part("        # empty set of constraints\n        constraints = set([])", "        return list(constraints)\n"), '''        return list(set().union(*(self.get_constraints_on(variable) for variable in variables)))
'''),
('''        return self.function(*[mapping[variable] for variable in \\
        self._variables]) is True
''', '''        arguments = tuple(map(mapping.__getitem__, self._variables))

        return self.function(*arguments) is True
'''),
('''        function = lambda x, y, z: not is_clockwise(x, y, z)

        # call''', '''        def function(*points):
            return not is_clockwise(*points)

        # call'''),
('''        for var in constraint.variables():
            # add the variable to the graph
            self.add_variable(var)

            # create edge in the graph for the variable
            self._graph.add_edge(var, constraint)
''', '''        names = constraint.variables()

        for var in names:
            self.add_variable(var)
        for var in names:
            self._graph.add_edge(var, constraint)
'''),
],
"constraint_sets": [
(part("        # empty list of shared constraints\n", "        return shared_constraints\n"), '''        shared = [c for c in self.get_constraints_on(variables[0])]

        for var in variables[1:]:
            on_var = set(self.get_constraints_on(var))
            shared = [c for c in shared if c in on_var]

        return shared
'''),
(part("        # empty set of constraints\n        constraints = set([])", "        return list(constraints)\n"), '''        found = {}

        for variable in variables:
            found.update(dict.fromkeys(self.get_constraints_on(variable)))

        return list(found)
'''),
],
}
