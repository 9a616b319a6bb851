"""Edits of solver/method.py that keep the behaviour."""
F = "method.py"
CHECKS = "C07 C08 C09 C10 C29"
ADD = '''        # map of outputs to input values
        out_map = {}

        # get variables from lists of inputs and outputs
        a = self.inputs[0]
        b = self.inputs[1]
        c = self.outputs[0]

        # calculate c = a + b if the variables exist in the input map
        if a in in_map and b in in_map \\
        and in_map[a] != None and in_map[b] != None:
            # set the value in the output map
            out_map[c] = in_map[a] + in_map[b]

        return out_map
'''
SUB = ADD.replace(" + ", " - ")
DO = '''        # create input map and check for None values
        inmap = {}
        has_nones = False

        for var in method.inputs:
            value = self._map[var]

            if value == None:
                has_nones = True

            inmap[var] = value

        for var in method.outputs:
            inmap[var] = self._map[var]
'''
UPD = '''        for var in method.outputs:
            if var in outmap:
                self._map[var] = outmap[var]
                self._changed[var] = 1
            else:
                if self._map[var] != None:
                    self._changed[var] = 1
                    self._map[var] = None
'''
REFS = {
"method_helpers": [
(ADD, '''        a, b = self.inputs
        c, = self.outputs

        if in_map.get(a) is None or in_map.get(b) is None:
            return {}

        return {c: in_map[a] + in_map[b]}
'''),
(SUB, '''        values = [in_map.get(variable) for variable in self.inputs]

        if None in values:
            return {}

        return {self.outputs[0]: values[0] - values[1]}
'''),
('''        base_inmap = {}

        for variable in self.inputs:
            if variable not in self.multi_inputs:
                value = inmap[variable]
                base_inmap[variable] = value

        outvar''', '''        base_inmap = {variable: inmap[variable] for variable in self.inputs
                      if variable not in self.multi_inputs}

        outvar'''),
('''        self.multi_inputs = []

        for variable in self.inputs:
            if isinstance(variable, MultiVariable):
                self.multi_inputs.append(variable)
''', '''        self.multi_inputs = [variable for variable in self.inputs
                             if isinstance(variable, MultiVariable)]
'''),
('''        if len(multi_inputs) > 0:
            mvar = multi_inputs[0]
            values = inmap[mvar]
            output = set()

            for value in values:
                base_inmap[mvar] = value
                output.update(self._recurse_execute(inmap, base_inmap, \\
                multi_inputs[1:]))

            return output

        return self.multi_execute(base_inmap)
''', '''        if not multi_inputs:
            return self.multi_execute(base_inmap)

        first, rest = multi_inputs[0], multi_inputs[1:]
        output = set()

        for value in inmap[first]:
            base_inmap[first] = value
            output |= set(self._recurse_execute(inmap, base_inmap, rest))

        return output
'''),
(DO, '''        inmap, has_nones = self._inputs_of(method)
'''),
('''    def __str__(self):
        variables = ''', '''    def _inputs_of(self, method):
        inmap = {}

        for var in method.inputs:
            inmap[var] = self._map[var]

        has_nones = any(value == None for value in inmap.values())

        for var in method.outputs:
            inmap[var] = self._map[var]

        return inmap, has_nones

    def __str__(self):
        variables = '''),
(UPD, '''        for var in method.outputs:
            self._update(var, outmap)
'''),
('''    def _do_execute(self''', '''    def _update(self, var, outmap):
        if var in outmap:
            self._map[var] = outmap[var]
            self._changed[var] = 1
        elif self._map[var] != None:
            self._changed[var] = 1
            self._map[var] = None

    def _do_execute(self'''),
('''        # check validity of graph
        for var in met.outputs:
            if len(self._graph.ingoing_vertices(var)) > 1:
                self.rem_method(met)

                raise MethodGraphDetermineException("Variable {0} determined \\
by multiple methods".format(var))
            elif len(self._graph.path(var, var)) != 0:
                self.rem_method(met)

                raise MethodGraphCycleException("Cycle in graph not allowed \\
(variable {0})".format(var))

        if prop:
            # execute includes propagation
            self.execute(met)
        else:
            # leave the changed outputs pending for a later propagation
            self._do_execute(met)
''', '''        self._check_outputs(met)

        self._do_execute(met)

        if prop:
            self.propagate()

    def _check_outputs(self, met):
        """Checks validity of graph"""

        for var in met.outputs:
            if len(self._graph.ingoing_vertices(var)) > 1:
                self.rem_method(met)

                raise MethodGraphDetermineException("Variable {0} determined \\
by multiple methods".format(var))

            if self._graph.path(var, var):
                self.rem_method(met)

                raise MethodGraphCycleException("Cycle in graph not allowed \\
(variable {0})".format(var))
'''),
],
"method_loops": [
(DO, '''        inmap = dict()
        has_nones = False

        for var in list(method.inputs) + list(method.outputs):
            inmap[var] = self._map[var]

        for var in method.inputs:
            if inmap[var] == None:
                has_nones = True
                break
'''),
('''        while len(self._changed) != 0:
            pick = list(self._changed.keys())[0]
            methods = self._graph.outgoing_vertices(pick)

            for method in methods:
                self._do_execute(method)

            if pick in self._changed:
                del(self._changed[pick])
''', '''        while self._changed:
            pick = next(iter(self._changed))

            for method in self._graph.outgoing_vertices(pick):
                self._do_execute(method)

            self._changed.pop(pick, None)
'''),
('''        while (len(self._map) > 0):
            self.rem_variable(list(self._map.keys())[0])
''', '''        for variable in list(self._map):
            self.rem_variable(variable)
'''),
('''        for vertex in self._graph.ingoing_vertices(varname):
            self.rem_method(vertex)
        for vertex in self._graph.outgoing_vertices(varname):
            self.rem_method(vertex)
''', '''        for vertex in self._graph.adjacent_vertices(varname):
            self.rem_method(vertex)
'''),
('''        for var in met.inputs:
            self.add_variable(var)
            self._graph.add_edge(var, met)

        for var in met.outputs:
            self.add_variable(var)
            self._graph.add_edge(met, var)
''', '''        for var in met.outputs:
            self.add_variable(var)
            self._graph.add_edge(met, var)

        for var in met.inputs:
            self.add_variable(var)
            self._graph.add_edge(var, met)
'''),
(UPD, '''        for var in method.outputs:
            value = outmap.get(var)

            if var in outmap or self._map[var] != None:
                self._map[var] = value
                self._changed[var] = 1
'''),
('''        # comma separated list of inputs
        input_str = " + ".join([str(_input) for _input in self.inputs])

        # comma separated list of outputs
        output_str = " + ".join([str(output) for output in self.outputs])

        # combined string
        return "{0}({1} -> {2})".format(self.name, input_str, \\
        output_str)''', '''        input_str, output_str = [" + ".join(map(str, variables))
                                 for variables in (self.inputs, self.outputs)]

        return self.name + "(" + input_str + " -> " + output_str + ")"'''),
('''        # return empty dict of the only input is not in the map
        if self.inputs[0] not in in_map:
            return {}

        # set the relevant output to the mapping and return
        return {self.outputs[0]: in_map[self.inputs[0]]}
''', '''        out_map = {}
        source = self.inputs[0]

        if source in in_map:
            out_map[self.outputs[0]] = in_map[source]

        return out_map
'''),
('''        a = inmap[self.inputs[0]]
        b = inmap[self.inputs[1]]

        return [a + b, a * b]
''', '''        a, b = [inmap[variable] for variable in self.inputs]
        total, product = a + b, a * b

        return [total, product]
'''),
],
"method_style": [
('''        if varname not in self._map:
            self._map[varname] = value
            self._graph.add_vertex(varname)
''', '''        if varname in self._map:
            return

        self._graph.add_vertex(varname)
        self._map[varname] = value
'''),
('''        del(self._map[varname])

        if varname in self._changed:
            del(self._changed[varname])

        # delete all methods on it
''', '''        self._map.pop(varname)
        self._changed.pop(varname, None)

        # delete all methods on it
'''),
('''        self._map[varname] = value
        self._changed[varname] = 1

        if prop:
            self.propagate()
''', '''        self._changed[varname] = 1
        self._map[varname] = value

        if not prop:
            return

        self.propagate()
'''),
('''        del(self._methods[met])
        self._graph.remove_vertex(met)
''', '''        self._graph.remove_vertex(met)
        del self._methods[met]
'''),
('''        # call method.execute
        if has_nones:
            logging.getLogger("method").debug("There are None values in the "
            "input; output is therefore empty")
            outmap = {}
        else:
            outmap = method.execute(inmap)
''', '''        outmap = {}

        if not has_nones:
            outmap = method.execute(inmap)
'''),
('''        self._methods[met] = 1

        # update graph, also if the method has no variables
        self._graph.add_vertex(met)
''', '''        # update graph, also if the method has no variables
        self._graph.add_vertex(met)
        self._methods[met] = True
'''),
('''            elif len(self._graph.path(var, var)) != 0:
                self.rem_method(met)
''', '''            elif self._graph.path(var, var) != []:
                self.rem_method(met)
'''),
('''        if self.name is None:
            return "MultiVariable#{0}".format(id(self))

        return "MultiVariable({0})".format(self.name)
''', '''        if self.name is not None:
            return "MultiVariable(" + str(self.name) + ")"

        return "MultiVariable#" + str(id(self))
'''),
('''        return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)
''', '''        return "{name}({out}={value})".format(name=self.name, out=self.outputs[0], value=self._value)
'''),
('''        # return a dict with the output set to the value
        return {self.outputs[0]: self._value}
''', '''        return dict([(self.outputs[0], self._value)])
'''),
('''        if len(self.outputs) != 1:
            raise Exception("MultiMethod requires exactly one output")

        if not isinstance(self.outputs[0], MultiVariable):
            raise Exception("MultiMethod requires a MultiVariable output")
''', '''        if not (len(self.outputs) == 1 and isinstance(self.outputs[0], MultiVariable)):
            raise Exception("MultiMethod requires exactly one MultiVariable output")
'''),
],
}
