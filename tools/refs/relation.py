"""Edits of solver/geometric/relation.py that keep the behaviour."""
F = "geometric/relation.py"
CHECKS = "C26 C28 C29"
REFS = {
"relation_a": [
('''        if isinstance(other, Distance):
            # check points are the same
            return frozenset(self.points) == frozenset(other.points)

        # other object is not same type
        return False
''', '''        if not isinstance(other, Distance):
            return False

        a, b = self.points
        c, d = other.points

        return (a == c and b == d) or (a == d and b == c)
'''),
('''            return self.points[1] == other.points[1] \\
            and frozenset(self.points) == frozenset(other.points)
''', '''            return self.points[1] == other.points[1] \\
            and {self.points[0], self.points[2]} == {other.points[0], other.points[2]}
'''),
('''        return hash(frozenset(self.points))
''', '''        points = frozenset(point for point in self.points)

        return hash(points)
'''),
],
"relation_b": [
('''            return self.points[1] == other.points[1] \\
            and frozenset(self.points) == frozenset(other.points)
''', '''            if self.points[1] != other.points[1]:
                return False

            return set(self.points) == set(other.points)
'''),
('''        if isinstance(other, Distance):
            # check points are the same
            return frozenset(self.points) == frozenset(other.points)

        # other object is not same type
        return False
''', '''        return isinstance(other, Distance) and self._unordered() == other._unordered()

    def _unordered(self):
        return frozenset(self.points)
'''),
('''        # comma separated points
        points = ", ".join([str(point) for point in self.points])

        return "{0}({1})".format(self.pretty_name, points)
''', '''        text = ""

        for point in self.points:
            if text:
                text += ", "

            text += str(point)

        return self.pretty_name + "(" + text + ")"
'''),
],
}
