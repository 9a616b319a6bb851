"""Edits of solver/geometric/configuration.py that keep the behaviour: other idioms."""
F = "geometric/configuration.py"
CHECKS = "C20 C21 C22 C29"
TWO = open("/repo/solver/" + F).read()
i = TWO.index("            # FIXME: the following code is duplicated")
j = TWO.index("        # calculate the transformation matrix between the two homogenous")
DUP = TWO[i:j]
REFS = {
"conf_modern": [
(DUP, '''            frames = []

            for configuration in (self, other):
                p1 = configuration.mapping[v1]
                p2 = configuration.mapping[v2]
                frame = make_hcs(p1, p2)

                if frame is None:
                    underconstrained = True
                    frame = make_hcs(p1, p1 + Vector(1.0, 0.0))

                frames.append(frame)

            cs1, cs2 = frames

'''),
('''        # empty dict of new coordinates
        new_mapping = {}

        # FIXME: just deep copy the dict - loop not needed
        # loop over each coordinate in this configuration
        for v in self.mapping:
            # copy the coordinate into the new set
            new_mapping[v] = self.mapping[v]

        # loop over the coordinates in the other configuration
        for v in c.mapping:
            # copy any coordinates not present in this configuration
            if v not in new_mapping:
                new_mapping[v] = c.mapping[v]

        # create and return a new configuration using the new coordinates
        return Configuration(new_mapping)
''', '''        return Configuration({**c.mapping, **self.mapping})
'''),
('''        # empty dict of new coordinates
        new_mapping = {}

        # FIXME: probably a smarter way to select the variables
        for v in variables:
            new_mapping[v] = self.mapping[v]

        # create and return a new configuration using the new coordinates
        return Configuration(new_mapping)
''', '''        return Configuration({v: self.mapping[v] for v in variables})
'''),
('''        if hash(self) != hash(other):
            # the hash value for configurations is based only on the variable
            # names, so if these differ then the configurations are definitely
            # different
            return False
        elif len(self.mapping) != len(other.mapping):
            # equal configurations would have the same number of variables
            return False
        else:
            # equal configurations would share the same variable names
            for var in self.mapping:
                if var not in other.mapping:
                    return False
''', '''        if self.mapping.keys() != other.mapping.keys():
            return False
        else:
'''),
('''            # test if the points map onto each
            for var in self.mapping:
                # calculate distance between the coordinates for the same
                # variable in each configuration
                d = distance_2p(other_t.get(var), self.get(var))

                # check if d is >0
                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                    return False

            # configurations are equal
            return True
''', '''            return all(Scalar.tol_zero(distance_2p(other_t.get(var), point))
                       for var, point in self.mapping.items())
'''),
('''            for v1, v2 in combinations(shared, 2):
                if not Scalar.tol_zero(distance_2p(self.mapping[v1], \\
                self.mapping[v2])) and not Scalar.tol_zero(distance_2p( \\
                other.mapping[v1], other.mapping[v2])):
                    break
''', '''            pairs = list(combinations(shared, 2))
            v1, v2 = next((pair for pair in pairs if self._apart(*pair)
                           and other._apart(*pair)), pairs[-1])
'''),
('''    def transformation_matrix(self, other):
''', '''    def _apart(self, v1, v2):
        """Whether two points do not overlap"""
        return not Scalar.tol_zero(distance_2p(self.mapping[v1], self.mapping[v2]))

    def transformation_matrix(self, other):
'''),
],
"conf_affine": [
('''            ph = (t * Matrix([[self.mapping[v].x, self.mapping[v].y, 1.0]]).transpose()).elements

            # create a vector for the new coordinates
            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0] / ph[2][0])
''', '''            point = self.mapping[v]
            x, y, w = [row[0] * point.x + row[1] * point.y + row[2] for row in t.elements]
            new_mapping[v] = Vector(x, y) / w
'''),
('''            # get the only shared variable
            v1 = list(shared)[0]
''', '''            (v1,) = shared
'''),
('''        if len(shared) == 0:
            # by def''', '''        if not shared:
            # by def'''),
],
}
