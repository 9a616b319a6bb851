"""Edits of solver/geometric/constraint.py that keep the behaviour."""
F = "geometric/constraint.py"
CHECKS = "C23 C24 C29"
ALL = '''        # empty list of shared constraints
        shared_constraints = []

        # loop over the constraints of the first variable in the list
        for constraint in self.get_constraints_on(variables[0]):
            # default flag
            shared_constraint = True

            # loop over the variables in the rest of the list
            for var in variables[1:]:
                # is this variable constrained by this constraint?
                if var not in constraint.variables():
                    # this variable doesn't share the constraint
                    shared_constraint = False

                    # no point checking the others
                    break

            if shared_constraint:
                # add constraint to list of shared constraints
                shared_constraints.append(constraint)

        return shared_constraints
'''
ANY = '''        # empty set of constraints
        constraints = set([])

        for variable in variables:
            constraints.update(set(self.get_constraints_on(variable)))

        # return constraints set as a list
        return list(constraints)
'''
REFS = {
"constraint_helpers": [
(ALL, '''        return [constraint for constraint in self.get_constraints_on(variables[0])
                if self._mentions_all(constraint, variables[1:])]

    @staticmethod
    def _mentions_all(constraint, variables):
        mentioned = constraint.variables()

        return all(var in mentioned for var in variables)
'''),
(ANY, '''        constraints = set()

        for variable in variables:
            constraints |= set(self.get_constraints_on(variable))

        return [constraint for constraint in constraints]
'''),
('''        function = lambda x, y, z: not is_clockwise(x, y, z)

        # call parent constructor
        super(NotClockwiseConstraint, self).__init__(function, [v1, v2, v3], \\
''', '''        def function(x, y, z):
            return not is_clockwise(x, y, z)

        # call parent constructor
        super().__init__(function, [v1, v2, v3], \\
'''),
('''        function = lambda x, y, z: not is_obtuse(x, y, z)
''', '''        function = lambda *points: not is_obtuse(*points)
'''),
('''        return self.function(*[mapping[variable] for variable in \\
        self._variables]) is True
''', '''        values = [mapping[variable] for variable in self._variables]
        result = self.function(*values)

        return result is True
'''),
('''        return mapping[self._variables[0]] + mapping[self._variables[1]] \\
         == mapping[self._variables[2]]
''', '''        a, b, c = [mapping[variable] for variable in self._variables]

        return a + b == c
'''),
('''        for constraint in self.get_constraints_on(var_name):
            self.rem_constraint(constraint)

        # remove variable from dict
        del(self._variables[var_name])

        # remove graph vertex associated with the variable
        self._graph.remove_vertex(var_name)
''', '''        self._rem_constraints(self.get_constraints_on(var_name))

        # remove variable
        self._graph.remove_vertex(var_name)
        self._variables.pop(var_name)

    def _rem_constraints(self, constraints):
        for constraint in constraints:
            self.rem_constraint(constraint)
'''),
],
"constraint_loops": [
(ALL, '''        shared = set(self.get_constraints_on(variables[0]))

        for var in variables[1:]:
            shared &= set(self.get_constraints_on(var))

        return list(shared)
'''),
(ANY, '''        constraints = []

        for variable in variables:
            for constraint in self.get_constraints_on(variable):
                if constraint not in constraints:
                    constraints.append(constraint)

        return constraints
'''),
('''        # only add constraint if it isn't already in the graph
        if constraint in self._constraints:
            return

        # create entry in constraints dict
        self._constraints[constraint] = None

        # create a vertex in the graph, also if there are no variables
        self._graph.add_vertex(constraint)

        # process the constraint's variables
        for var in constraint.variables():
            # add the variable to the graph
            self.add_variable(var)

            # create edge in the graph for the variable
            self._graph.add_edge(var, constraint)
''', '''        if constraint not in self._constraints:
            self._graph.add_vertex(constraint)
            self._constraints[constraint] = None
            variables = constraint.variables()

            for var in variables:
                self.add_variable(var)

            for var in variables:
                self._graph.add_edge(var, constraint)
'''),
('''        # check if variable is in the graph
        if not self._graph.has_vertex(variable):
            # default to empty list
            return []

        # return the variable's outgoing vertices
        return self._graph.outgoing_vertices(variable)
''', '''        if self._graph.has_vertex(variable):
            return [constraint for _, constraint in self._graph.outgoing_edges(variable)]

        return []
'''),
],
"constraint_style": [
(ALL, '''        first, rest = variables[0], variables[1:]
        shared_constraints = []

        for constraint in self.get_constraints_on(first):
            for var in rest:
                if var not in constraint.variables():
                    break
            else:
                shared_constraints.append(constraint)

        return shared_constraints
'''),
(ANY, '''        return list({constraint for variable in variables for constraint in self.get_constraints_on(variable)})
'''),
('''        # remove constraint from dict
        del(self._constraints[constraint])

        # remove graph vertex associated with the constraint
        self._graph.remove_vertex(constraint)
''', '''        self._graph.remove_vertex(constraint)
        self._constraints.pop(constraint)
'''),
('''        function = lambda x, y, z: not is_counterclockwise(x, y, z)
''', '''        function = lambda x, y, z: False if is_counterclockwise(x, y, z) else True
'''),
('''        function = lambda x, y, z: not is_acute(x, y, z)
''', '''        function = lambda a, b, c: is_acute(a, b, c) == False
'''),
('''        return "{0}({1})".format(self.name, ", ".join( \\
        [str(variable) for variable in self._variables]))

class FunctionConstraint''', '''        names = ", ".join(str(variable) for variable in self.variables())

        return self.name + "(" + names + ")"

class FunctionConstraint'''),
('''        # check if there are explicit variables defined
        if hasattr(self, "_variables"):
            # return list of variables
            return list(self._variables)
        else:
            # subclass hasn't set _variables or overridden this function
            raise NotImplementedError
''', '''        if not hasattr(self, "_variables"):
            raise NotImplementedError

        return self._variables[:]
'''),
],
}
