"""Edits of solver/geometric/cluster.py that keep the behaviour: other idioms."""
F = "geometric/cluster.py"
CHECKS = "C25 C26 C27 C29"
TRI = open("/repo/solver/" + F).read()
i = TRI.index("        # empty set of common angles\n        common_angles = set()\n\n        # loop over first variable\n        for i in range(len(shared)):\n            # loop over second variable\n            for j in range(i+1, len(shared)):\n                # loop over third")
TRI = TRI[i:TRI.index("        return common_angles\n", i) + len("        return common_angles\n")]
REFS = {
"cluster_modern": [
(TRI, '''        return {angle for v1, v2, v3 in itertools.combinations(shared, 3)
                for angle in (Angle(v1, v2, v3), Angle(v2, v3, v1), Angle(v3, v1, v2))}
'''),
("import logging\n", "import itertools\nimport logging\n"),
('''        # return appropriate intersection
        if isinstance(other, Rigid):
            return self.intersect_rigid(shared, other)
        elif isinstance(other, Hedgehog):
            return self.intersect_hedgehog(shared, other)
        elif isinstance(other, Balloon):
            return self.intersect_balloon(shared, other)
''', '''        for kind, method in ((Rigid, self.intersect_rigid), (Hedgehog, self.intersect_hedgehog),
                             (Balloon, self.intersect_balloon)):
            if isinstance(other, kind):
                return method(shared, other)
'''),
('''        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i):
                # get variables
                v1 = shared[i]
                v2 = shared[j]

                # add distance to set (duplicates will be avoided due to hash
                # values for each distance)
                common_distances.add(Distance(v1, v2))

        return common_distances
''', '''        for i, v1 in enumerate(shared):
            common_distances.update(Distance(v1, v2) for v2 in shared[:i])

        return common_distances
'''),
('''        return int(binom(len(self.vars), 2))
''', '''        n = len(self.vars)

        return n * (n - 1) // 2
'''),
('''        return int(binom(len(self.vars), 3) * 3)
''', '''        n = len(self.vars)

        return n * (n - 1) * (n - 2) // 2
'''),
('''        x_vars = set(shared) - set([hedgehog.c_var])
''', '''        x_vars = {var for var in shared if var != hedgehog.c_var}
'''),
('''        x_vars = set(x_vars) - set([c_var])
''', '''        x_vars = set(x_vars)
        x_vars.discard(c_var)
'''),
],
"cluster_visitors": [
('''        if isinstance(other, Rigid):
            return self.common_angles_rigid(other)
        elif isinstance(other, Hedgehog):
            return self.common_angles_hedgehog(other)
        elif isinstance(other, Balloon):
            return self.common_angles_balloon(other)

        # if all fails
        raise TypeError("Unknown other cluster type")
''', '''        if not isinstance(other, (Rigid, Hedgehog, Balloon)):
            raise TypeError("Unknown other cluster type")

        name = "common_angles_rigid" if isinstance(other, Rigid) else \\
        "common_angles_hedgehog" if isinstance(other, Hedgehog) else "common_angles_balloon"

        return getattr(self, name)(other)
'''),
('''        shared = list(set(self.vars) & set(hedgehog.x_vars))
''', '''        shared = [var for var in hedgehog.x_vars if var in self.vars]
'''),
('''        return Rigid(shared)
''', '''        return self.__class__(shared) if type(self) is Rigid else Rigid(shared)
'''),
],
}
