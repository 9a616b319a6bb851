"""Edits of solver/geometric/configuration.py that keep the behaviour."""
F = "geometric/configuration.py"
CHECKS = "C20 C21 C22 C29"
TWO = open("/repo/solver/" + F).read()
i = TWO.index("            # FIXME: the following code is duplicated")
j = TWO.index("        # calculate the transformation matrix between the two homogenous")
DUP = TWO[i:j]
REFS = {
"conf_helpers": [
(DUP, '''            cs1, overlap1 = self._frame(v1, v2)
            cs2, overlap2 = other._frame(v1, v2)
            underconstrained = underconstrained or overlap1 or overlap2

'''),
('''    def __eq__(self''', '''    def _frame(self, v1, v2):
        """Coordinate system of two points of this configuration, and whether they overlap"""

        p1 = self.mapping[v1]
        p2 = self.mapping[v2]

        if Scalar.tol_zero((p2 - p1).length):
            return make_hcs(p1, p1 + Vector(1.0, 0.0)), True

        return make_hcs(p1, p2), False

    def __eq__(self'''),
('''        for v in self.mapping:
            # calculate the new homogeneous coordinate
            ph = (t * Matrix([[self.mapping[v].x, self.mapping[v].y, 1.0]]).transpose()).elements

            # create a vector for the new coordinates
            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0] / ph[2][0])
''', '''        for v, point in self.mapping.items():
            new_mapping[v] = self._transformed(point, t)
'''),
('''    def add(self, c):''', '''    @staticmethod
    def _transformed(point, t):
        column = Matrix([[point.x], [point.y], [1.0]])
        (x,), (y,), (w,) = (t * column).elements

        return Vector(x / w, y / w)

    def add(self, c):'''),
('''        # FIXME: just deep copy the dict - loop not needed
        # loop over each coordinate in this configuration
        for v in self.mapping:
            # copy the coordinate into the new set
            new_mapping[v] = self.mapping[v]

        # loop over the coordinates in the other configuration
        for v in c.mapping:
            # copy any coordinates not present in this configuration
            if v not in new_mapping:
                new_mapping[v] = c.mapping[v]
''', '''        new_mapping.update(c.mapping)
        new_mapping.update(self.mapping)
'''),
('''        # FIXME: probably a smarter way to select the variables
        for v in variables:
            new_mapping[v] = self.mapping[v]

        # create and return a new configuration using the new coordinates
        return Configuration(new_mapping)
''', '''        return Configuration({v: self.mapping[v] for v in variables})
'''),
('''            for var in self.mapping:
                # calculate distance between the coordinates for the same
                # variable in each configuration
                d = distance_2p(other_t.get(var), self.get(var))

                # check if d is >0
                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                    return False

            # configurations are equal
            return True
''', '''            return all(Scalar.tol_zero(distance_2p(other_t.get(var), self.get(var))) for var in self.mapping)
'''),
],
"conf_loops": [
('''        for v in self.mapping:
            # copy the coordinate into the new set
            new_mapping[v] = self.mapping[v]

        # loop over the coordinates in the other configuration
        for v in c.mapping:
            # copy any coordinates not present in this configuration
            if v not in new_mapping:
                new_mapping[v] = c.mapping[v]
''', '''        new_mapping = dict(self.mapping)

        for v, point in c.mapping.items():
            new_mapping.setdefault(v, point)
'''),
('''            for v1, v2 in combinations(shared, 2):
                if not Scalar.tol_zero(distance_2p(self.mapping[v1], \\
                self.mapping[v2])) and not Scalar.tol_zero(distance_2p( \\
                other.mapping[v1], other.mapping[v2])):
                    break
''', '''            v1, v2 = self._separate_pair(other, list(shared))
'''),
('''    def __eq__(self''', '''    def _separate_pair(self, other, names):
        for i, v1 in enumerate(names):
            for v2 in names[i + 1:]:
                gaps = [distance_2p(c.mapping[v1], c.mapping[v2]) for c in (self, other)]

                if not any(Scalar.tol_zero(gap) for gap in gaps):
                    return v1, v2

        return names[-2], names[-1]

    def __eq__(self'''),
('''            for var in self.mapping:
                if var not in other.mapping:
                    return False
''', '''            if any(var not in other.mapping for var in self.mapping):
                return False
'''),
('''        self.hashvalue = hash(sum([hash(var) for var in self.mapping]))
''', '''        total = 0

        for var in self.mapping:
            total += hash(var)

        self.hashvalue = hash(total)
'''),
('''        shared = set(self.vars()) & set(other.vars())
''', '''        shared = set(var for var in self.vars() if var in other.mapping)
'''),
],
"conf_style": [
('''        if hash(self) != hash(other):
            # the hash value for configurations is based only on the variable
            # names, so if these differ then the configurations are definitely
            # different
            return False
        elif len(self.mapping) != len(other.mapping):
            # equal configurations would have the same number of variables
            return False
        else:
            # equal configurations would share the same variable names
            for var in self.mapping:
                if var not in other.mapping:
                    return False

            # determine the rotation-translation transformation to transform
            # the other configuration onto this one
            t, _ = self.transformation_matrix(other)

            # transform the other configuration
            other_t = other.transform(t)

            # test if the points map onto each
            for var in self.mapping:
                # calculate distance between the coordinates for the same
                # variable in each configuration
                d = distance_2p(other_t.get(var), self.get(var))

                # check if d is >0
                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                    return False

            # configurations are equal
            return True
''', '''        if set(self.mapping) != set(other.mapping):
            return False

        t, _ = self.transformation_matrix(other)
        moved = other.transform(t)

        for var, point in self.mapping.items():
            if Scalar.tol_gt(distance_2p(moved.mapping[var], point), 0):
                return False

        return True
'''),
('''        # check if there are shared variables
        if len(shared) == 0:
''', '''        if not shared:
'''),
('''            # get the only shared variable
            v1 = list(shared)[0]
''', '''            v1, = shared
'''),
('''        merged_configuration = self.add(other.transform(t))
        merged_configuration.underconstrained = underconstrained

        return merged_configuration, underconstrained
''', '''        moved = other.transform(t)
        result = self.add(moved)
        result.underconstrained = underconstrained

        return (result, underconstrained)
'''),
('''        self.hashvalue = hash(sum([hash(var) for var in self.mapping]))
''', '''        self.hashvalue = hash(sum(map(hash, self.mapping)))
'''),
('''        # dictionary mapping variable names to point values
        self.mapping = dict(mapping)

        # flag indicating an underconstrained merge (i.e. not a unique solution)
        self.underconstrained = False
''', '''        self.underconstrained = False
        self.mapping = {}
        self.mapping.update(mapping)
'''),
('''        return "Configuration({0})".format(self.mapping)
''', '''        return "Configuration(%s)" % (self.mapping,)
'''),
],
}
