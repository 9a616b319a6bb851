"""Edits of solver/geometric/cluster.py that keep the behaviour."""
F = "geometric/cluster.py"
CHECKS = "C25 C26 C27 C29"
REFS = {
"cluster_helpers": [
('''        # empty set of common angles
        common_angles = set()

        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i+1, len(shared)):
                # loop over third variable
                for k in range(j+1, len(shared)):
                    # get variables
                    v1 = shared[i]
                    v2 = shared[j]
                    v3 = shared[k]

                    # add combinations of angles to set (duplicates will be
                    # avoided due to hash values for each angle)
                    common_angles.add(Angle(v1, v2, v3))
                    common_angles.add(Angle(v2, v3, v1))
                    common_angles.add(Angle(v3, v1, v2))

        return common_angles

    def common_angles_hedgehog''', '''        return self._triangle_angles(shared)

    def common_angles_hedgehog'''),
('''    def common_angles_balloon(self, balloon):
        # list of duplicate angles
        shared = list(set(self.vars) & set(balloon.vars))

        # empty set of common angles
        common_angles = set()

        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i+1, len(shared)):
                # loop over third variable
                for k in range(j+1, len(shared)):
                    # get variables
                    v1 = shared[i]
                    v2 = shared[j]
                    v3 = shared[k]

                    # add combinations of angles to set (duplicates will be
                    # avoided due to hash values for each angle)
                    common_angles.add(Angle(v1, v2, v3))
                    common_angles.add(Angle(v2, v3, v1))
                    common_angles.add(Angle(v3, v1, v2))

        return common_angles

    def n_distances(self):
        return int(''', '''    def common_angles_balloon(self, balloon):
        return self._triangle_angles(list(self.vars & balloon.vars))

    def n_distances(self):
        return int('''),
('''    def n_constraints(self):''', '''    @staticmethod
    def _triangle_angles(points):
        """All angles of all triangles of the specified points"""

        angles = set()

        for i in range(len(points)):
            for j in range(i + 1, len(points)):
                for k in range(j + 1, len(points)):
                    a, b, c = points[i], points[j], points[k]
                    angles.add(Angle(a, b, c))
                    angles.add(Angle(b, c, a))
                    angles.add(Angle(c, a, b))

        return angles

    def n_constraints(self):'''),
('''        # shared variables except this hedgehog's central variable
        x_vars = set(shared) - set([self.c_var])

        if self.c_var in balloon.vars and len(x_vars) >= 2:
            # this hedgehog's central value is in the balloon, so make the
            # balloon's variables extra variables of this hedgehog
            return Hedgehog(self.c_var, x_vars)

        # not possible to merge
        return None
''', '''        return self._restricted(balloon)

    def _restricted(self, other):
        """This hedgehog on the points it shares with another cluster"""

        if self.c_var not in other.vars:
            return None

        outer = self.x_vars & other.vars

        if len(outer) < 2:
            return None

        return Hedgehog(self.c_var, outer)
'''),
('''        # shared variables except the hedgehog's central variable
        x_vars = set(shared) - set([hedgehog.c_var])

        if hedgehog.c_var in self.vars and len(x_vars) >= 2:
            # hedgehog's central variable is in this rigid, and there are at
            # least two extra variables to form a constraint with
            return Hedgehog(hedgehog.c_var, x_vars)

        return None
''', '''        return hedgehog._restricted(self)
'''),
('''        return int(binom(len(self.vars), 3) * 3)

class Hedgehog''', '''        return 3 * int(binom(len(self.vars), 3))

class Hedgehog'''),
],
"cluster_loops": [
('''import logging
''', '''import logging
from itertools import combinations
'''),
('''        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i):
                # get variables
                v1 = shared[i]
                v2 = shared[j]

                # add distance to set (duplicates will be avoided due to hash
                # values for each distance)
                common_distances.add(Distance(v1, v2))

        return common_distances
''', '''        for v1, v2 in combinations(shared, 2):
            common_distances.add(Distance(v1, v2))

        return common_distances
'''),
('''        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i+1, len(shared)):
                # loop over third variable
                for k in range(j+1, len(shared)):
                    # get variables
                    v1 = shared[i]
                    v2 = shared[j]
                    v3 = shared[k]

                    # add combinations of angles to set (duplicates will be
                    # avoided due to hash values for each angle)
                    common_angles.add(Angle(v1, v2, v3))
                    common_angles.add(Angle(v2, v3, v1))
                    common_angles.add(Angle(v3, v1, v2))

        return common_angles

    def common_angles_hedgehog''', '''        for v1, v2, v3 in combinations(shared, 3):
            common_angles.update([Angle(v1, v2, v3), Angle(v2, v3, v1), Angle(v3, v1, v2)])

        return common_angles

    def common_angles_hedgehog'''),
('''        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i):
                # get variables
                v1 = shared[i]
                v2 = shared[j]

                # add angle to overconstrained set
                common_angles.add(Angle(v1, self.c_var, v2))

        return common_angles
''', '''        for i, v1 in enumerate(shared):
            for v2 in shared[:i]:
                common_angles.add(Angle(v1, self.c_var, v2))

        return common_angles
'''),
('''        # empty set of common angles
        common_angles = set()

        if hedgehog.c_var not in self.vars:
            # hedgehog's central value is not shared with this balloon, so there
            # are no overconstrained angles to add
            return common_angles

        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i+1, len(shared)):
                # get variables
                v1 = shared[i]
                v2 = shared[j]

                # add angle to overconstrained set
                common_angles.add(Angle(v1, hedgehog.c_var, v2))

        return common_angles
''', '''        if hedgehog.c_var not in self.vars:
            return set()

        return {Angle(v1, hedgehog.c_var, v2) for v1, v2 in combinations(shared, 2)}
'''),
],
"cluster_style": [
('''        shared = self.vars & other.vars

        if len(shared) < 2:''', '''        shared = self.vars.intersection(other.vars)

        if len(shared) <= 1:'''),
('''        if isinstance(other, Rigid):
            return self.intersect_rigid(shared, other)
        elif isinstance(other, Hedgehog):
            return self.intersect_hedgehog(shared, other)
        elif isinstance(other, Balloon):
            return self.intersect_balloon(shared, other)
''', '''        for kind, intersect in ((Rigid, self.intersect_rigid), (Hedgehog, self.intersect_hedgehog),
                                (Balloon, self.intersect_balloon)):
            if isinstance(other, kind):
                return intersect(shared, other)
'''),
('''        x_vars = set(x_vars) - set([c_var])

        # check''', '''        x_vars = set(x for x in x_vars if x != c_var)

        # check'''),
('''        # variables
        self.x_vars = x_vars
        self.c_var = c_var

        # call parent constructor with all variables
        super(Hedgehog, self).__init__(self.x_vars | set([self.c_var]))
''', '''        # call parent constructor with all variables
        super().__init__(x_vars | {c_var})

        self.c_var = c_var
        self.x_vars = x_vars
'''),
('''        x_vars = self.x_vars & hedgehog.x_vars

        if self.c_var == hedgehog.c_var and len(x_vars) >= 2:
            # each hedgehog shares the same point, so merge them
            return Hedgehog(self.c_var, x_vars)

        # not possible to merge
        return None
''', '''        if self.c_var != hedgehog.c_var:
            return None

        x_vars = self.x_vars & hedgehog.x_vars

        return Hedgehog(self.c_var, x_vars) if len(x_vars) >= 2 else None
'''),
('''        # same as for rigid
        return self.intersect_rigid(shared, Rigid(balloon.var_list()))
''', '''        return Balloon(shared) if len(shared) >= 3 else None
'''),
('''        return self.n_distances() + self.n_angles()
''', '''        return sum([self.n_angles(), self.n_distances()])
'''),
('''        return int(binom(len(self.vars), 2))
''', '''        n = len(self.vars)

        return n * (n - 1) // 2
'''),
('''        return int(binom(len(self.x_vars), 2))
''', '''        k = len(self.x_vars)

        return int(k * (k - 1) / 2)
'''),
('''        # no distances in a balloon
        return 0

    def n_angles(self):
        return int(binom(len(self.vars), 3) * 3)
''', '''        # no distances in a balloon
        return 0

    def n_angles(self):
        n = len(self.vars)

        return n * (n - 1) * (n - 2) // 2
'''),
('''        # union between distances and angles in common
        return self.common_distances(other) | self.common_angles(other)
''', '''        common = set(self.common_distances(other))
        common.update(self.common_angles(other))

        return common
'''),
('''        ovr_const = ""

        if self.overconstrained:
            ovr_const += "!"
''', '''        ovr_const = "!" if self.overconstrained else ""
'''),
],
}
