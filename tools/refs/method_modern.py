"""Edits of solver/method.py that keep the behaviour: other idioms."""
F = "method.py"
CHECKS = "C07 C08 C09 C10 C29"
REFS = {
"method_modern": [
('''        while len(self._changed) != 0:
            pick = list(self._changed.keys())[0]
            methods = self._graph.outgoing_vertices(pick)

            for method in methods:
                self._do_execute(method)

            if pick in self._changed:
                del(self._changed[pick])
''', '''        while self._changed:
            pick = next(iter(self._changed))

            for method in self._graph.outgoing_vertices(pick):
                self._do_execute(method)

            self._changed.pop(pick, None)
'''),
('''        while (len(self._map) > 0):
            self.rem_variable(list(self._map.keys())[0])
''', '''        for variable in list(self._map):
            self.rem_variable(variable)
'''),
('''            base_inmap = {}
''', '''            base_inmap = dict()
'''),
] [:2] + [
('''        for variable in self.inputs:
            if variable not in self.multi_inputs:
                value = inmap[variable]
                base_inmap[variable] = value

        outvar = self.outputs[0]
        values = self._recurse_execute(inmap, base_inmap, self.multi_inputs)

        return {outvar: values}
''', '''        base_inmap.update({variable: inmap[variable] for variable in self.inputs
                           if variable not in self.multi_inputs})

        return {self.outputs[0]: self._recurse_execute(inmap, base_inmap, self.multi_inputs)}
'''),
('''        if len(multi_inputs) > 0:
            mvar = multi_inputs[0]
            values = inmap[mvar]
            output = set()

            for value in values:
                base_inmap[mvar] = value
                output.update(self._recurse_execute(inmap, base_inmap, \\
                multi_inputs[1:]))

            return output

        return self.multi_execute(base_inmap)
''', '''        if not multi_inputs:
            return self.multi_execute(base_inmap)

        mvar, rest = multi_inputs[0], multi_inputs[1:]
        output = set()

        for value in inmap[mvar]:
            base_inmap[mvar] = value
            output |= set(self._recurse_execute(inmap, base_inmap, rest))

        return output
'''),
('''        for var in method.inputs:
            value = self._map[var]

            if value == None:
                has_nones = True

            inmap[var] = value

        for var in method.outputs:
            inmap[var] = self._map[var]
''', '''        inmap = {var: self._map[var] for var in method.inputs}
        has_nones = any(value is None for value in inmap.values())
        inmap.update((var, self._map[var]) for var in method.outputs)
'''),
('''            if var in outmap:
                self._map[var] = outmap[var]
                self._changed[var] = 1
            else:
                if self._map[var] != None:
                    self._changed[var] = 1
                    self._map[var] = None
''', '''            if var not in outmap:
                if self._map[var] is None:
                    continue

                value = None
            else:
                value = outmap[var]

            self._map[var] = value
            self._changed[var] = True
'''),
],
"method_exceptions": [
('''        for var in met.outputs:
            if len(self._graph.ingoing_vertices(var)) > 1:
                self.rem_method(met)

                raise MethodGraphDetermineException("Variable {0} determined \\
by multiple methods".format(var))
            elif len(self._graph.path(var, var)) != 0:
                self.rem_method(met)

                raise MethodGraphCycleException("Cycle in graph not allowed \\
(variable {0})".format(var))
''', '''        try:
            for var in met.outputs:
                self._check_output(var)
        except Exception:
            self.rem_method(met)
            raise
'''),
('''    def rem_method(self, met):
''', '''    def _check_output(self, var):
        """Check that a variable is determined once and not by itself"""

        if len(self._graph.ingoing_vertices(var)) > 1:
            raise MethodGraphDetermineException("Variable {0} determined \\
by multiple methods".format(var))

        if self._graph.path(var, var):
            raise MethodGraphCycleException("Cycle in graph not allowed \\
(variable {0})".format(var))

    def rem_method(self, met):
'''),
('''        if varname in self._changed:
            del(self._changed[varname])

        # delete all methods on it
        for vertex in self._graph.ingoing_vertices(varname):
            self.rem_method(vertex)
        for vertex in self._graph.outgoing_vertices(varname):
            self.rem_method(vertex)
''', '''        self._changed.pop(varname, None)

        for vertex in self._graph.ingoing_vertices(varname) + \\
        self._graph.outgoing_vertices(varname):
            self.rem_method(vertex)
'''),
],
}
