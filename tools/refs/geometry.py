"""Edits of solver/geometry.py that keep the behaviour."""
F = "geometry.py"
CHECKS = "C11 C12 C13 C14 C15 C16 C17 C18 C19 C21 C24"
def op(name, sign):
    return '''    def __%s__(self, other):
        try:
            other_x = other.x
            other_y = other.y
        except AttributeError:
            other_x = other
            other_y = other

        return self.__class__(self.x %s other_x, self.y %s other_y)
''' % (name, sign, sign)
PRED = '''    u = p2 - p1
    v = p3 - p2;
    perp_u = Vector(-u.y, u.x)

'''
REFS = {
"geometry_helpers": [
(op("add", "+"), '''    @staticmethod
    def _components(other):
        try:
            return other.x, other.y
        except AttributeError:
            return other, other

    def __add__(self, other):
        x, y = self._components(other)

        return self.__class__(self.x + x, self.y + y)
'''),
(op("sub", "-"), '''    def __sub__(self, other):
        x, y = self._components(other)

        return self.__class__(self.x - x, self.y - y)
'''),
(op("mul", "*"), '''    def __mul__(self, other):
        x, y = self._components(other)

        return self.__class__(x * self.x, y * self.y)
'''),
(op("truediv", "/"), '''    def __truediv__(self, other):
        x, y = self._components(other)

        return self.__class__(self.x / x, self.y / y)
'''),
('''def is_clockwise(''', '''def _turn(p1, p2, p3):
    """Cross product of the edges p1-p2 and p2-p3"""

    u = p2 - p1
    v = p3 - p2

    return u.x * v.y - u.y * v.x

def is_clockwise('''),
(PRED + '''    # check a < 0 within tolerance
    return Scalar.tol_lt(perp_u.dot(v), 0)
''', '''    return Scalar.tol_lt(_turn(p1, p2, p3), 0)
'''),
(PRED + '''    # check that a > 0 within tolerance
    return Scalar.tol_gt(perp_u.dot(v), 0)
''', '''    return Scalar.tol_gt(_turn(p1, p2, p3), 0)
'''),
(PRED + '''    return Scalar.tol_zero(perp_u.dot(v), 0)
''', '''    return Scalar.tol_zero(_turn(p1, p2, p3), 0)
'''),
('''    # clip to +/-1.0 to fix floating point errors
    if t > 1.0:
        t = 1.0
    elif t < -1.0:
        t = -1.0

    # calculate angle from rotation vector
    angle = math.acos(t)

    if is_counterclockwise(p1, p2, p3):
        # flip angle
        angle = -angle

    return angle
''', '''    # clip to +/-1.0 to fix floating point errors
    angle = math.acos(max(-1.0, min(1.0, t)))

    return -angle if is_counterclockwise(p1, p2, p3) else angle
'''),
('''    if Scalar.tol_zero(d21) or Scalar.tol_zero(d23):
        # degenerate angle
        return None
''', '''    for d in (d21, d23):
        if Scalar.tol_zero(d):
            return None
'''),
('''    solutions = []

    # loop over solutions of the circle and line intercept
    for s in cl_int(p1, r, p2, v):
        # check if a is >= 0 within tolerance
        if Scalar.tol_ge((s - p2).dot(v), 0):
            solutions.append(s)

    return solutions
''', '''    return [s for s in cl_int(p1, r, p2, v) if _ahead(s, p2, v)]

def _ahead(s, origin, direction):
    """Whether a point is not behind the origin of a ray"""

    return Scalar.tol_ge((s - origin).dot(direction), 0)
'''),
('''    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
        return s
    else:
        # lines intersect behind ray
        return []
''', '''    return [point for point in s if _ahead(point, p2, v2)]
'''),
('''    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \\
    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
        return s
    else:
        # lines intersect behind rays
        return []
''', '''    if not s:
        return []

    if all(_ahead(s[0], origin, direction) for origin, direction in ((p1, v1), (p2, v2))):
        return s

    return []
'''),
],
"geometry_loops": [
('''        t_matrix = []

        for row in range(self.num_cols):
            t_row = []

            for col in range(self.num_rows):
                t_row.append(self.elements[col][row])

            t_matrix.append(t_row)

        return Matrix(t_matrix)
''', '''        return Matrix([list(column) for column in zip(*self.elements)])
'''),
('''        for row in range(self.num_rows):
            for col in range(self.num_cols):
                self.elements[row][col] = round(self.elements[row][col], \\
                precision)
''', '''        for row in self.elements:
            for col, element in enumerate(row):
                row[col] = round(element, precision)
'''),
('''        return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \\
        for col_b in zip(*other.elements)] for row_a in self.elements])
''', '''        product = []

        for row in self.elements:
            product.append([])

            for j in range(other.num_cols):
                total = 0

                for k in range(other.num_rows):
                    total += row[k] * other.elements[k][j]

                product[-1].append(total)

        return Matrix(product)
'''),
('''        # function to generate 1 or 0 for diagonals
        def ij_elem(i, j):
            if i == j:
                return 1.0

            return 0.0

        return cls([[ij_elem(i, j) for i in range(n)] for j in range(n)])
''', '''        rows = [[0.0] * n for _ in range(n)]

        for i in range(n):
            rows[i][i] = 1.0

        return cls(rows)
'''),
('''        return abs(a - b) <= (abs_tol + rel_tol * abs(b))
''', '''        difference = math.fabs(b - a)
        allowed = rel_tol * math.fabs(b) + abs_tol

        return not difference > allowed
'''),
('''        return a > b or cls.tol_eq(a, b, *args, **kwargs)
''', '''        if a > b:
            return True

        return cls.tol_eq(a, b, *args, **kwargs)
'''),
('''        return a < b and not cls.tol_eq(a, b, *args, **kwargs)
''', '''        return not cls.tol_eq(a, b, *args, **kwargs) and a < b
'''),
('''    # resultant vector
    u = b - a

    if Scalar.tol_zero(u.length):
        # vectors are on top of each other (within tolerance)
        return None

    if not scale:
        # normalise resultant
        u /= u.length

    # mirror of u
    v = Vector(-u.y, u.x)

    # return new coordinate system
    return Matrix([
        [u.x, v.x, a.x],
        [u.y, v.y, a.y],
        [0.0, 0.0, 1.0]
    ])
''', '''    u = b - a
    length = distance_2p(a, b)

    if Scalar.tol_zero(length):
        return None

    factor = 1.0 if scale else 1.0 / length
    x, y = u.x * factor, u.y * factor

    return Matrix([[x, -y, a.x], [y, x, a.y], [0.0, 0.0, 1.0]])
'''),
('''        x = self.x * math.cos(math.radians(azimuth)) \\
        - self.y * math.sin(math.radians(azimuth))
        y = self.x * math.sin(math.radians(azimuth)) \\
        + self.y * math.cos(math.radians(azimuth))
''', '''        angle = math.radians(azimuth)
        c, s = math.cos(angle), math.sin(angle)
        x = self.x * c - self.y * s
        y = self.x * s + self.y * c
'''),
('''        return math.sqrt(self.x * self.x + self.y * self.y)
''', '''        return math.sqrt(self.dot(self))
'''),
],
"geometry_style": [
('''    # check if d <= 0 within tolerance
    if Scalar.tol_le(d, 0):
        # no solutions
        return []
''', '''    # check if d = 0 within tolerance
    if Scalar.tol_zero(d):
        return []
'''),
('''    if Scalar.tol_lt(a, b):
        return []
    elif a < b:
        v = 0.0
    else:
        v = math.sqrt(a-b)

    s = (p2 - p1) * u / d
''', '''    if Scalar.tol_lt(a, b):
        return []

    v = math.sqrt(max(a - b, 0.0))

    s = (p2 - p1) * u / d
'''),
('''        p3a = p1 + s + Vector(s.y, -s.x) * v / s.length

        if Scalar.tol_zero(v / s.length):
            return [p3a]
        else:
            p3b = p1 + s + Vector(-s.y, s.x) * v / s.length

            return [p3a, p3b]
''', '''        foot = p1 + s
        offset = Vector(s.y, -s.x) * v / s.length

        if Scalar.tol_zero(v / s.length):
            return [foot + offset]

        return [foot + offset, foot - offset]
'''),
('''    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0):
        sE = math.sqrt(E)
        x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
        x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2

        return [Vector(x1, y1), Vector(x2, y2)]
    elif Scalar.tol_zero(E):
        x1 = p1.x + D * v.y / d2
        y1 = p1.y + -D * v.x / d2

        return [Vector(x1, y1)]
    else:
        return []
''', '''    if Scalar.tol_zero(E):
        return [Vector(p1.x + D * v.y / d2, p1.y - D * v.x / d2)]

    if not (Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0)):
        return []

    sE = math.sqrt(E)
    dx = Scalar.sign(v.y) * v.x * sE
    dy = abs(v.y) * sE

    return [Vector(p1.x + (D * v.y + k * dx) / d2, p1.y + (k * dy - D * v.x) / d2) for k in (1, -1)]
'''),
('''    d = p2 - p1
    t1 = (d.x * v2.y - d.y * v2.x) / f

    return [p1 + v1 * t1]
''', '''    t1 = ((p2.x - p1.x) * v2.y - (p2.y - p1.y) * v2.x) / f

    return [Vector(p1.x + t1 * v1.x, p1.y + t1 * v1.y)]
'''),
('''    if angle is None:
        return False

    return Scalar.tol_lt(abs(angle), math.pi / 2)
''', '''    return angle is not None and Scalar.tol_lt(abs(angle), math.pi / 2)
'''),
('''    if angle is None:
        return False

    return Scalar.tol_gt(abs(angle), math.pi / 2)
''', '''    right = math.pi / 2

    return angle is not None and Scalar.tol_gt(math.fabs(angle), right)
'''),
('''    v21 = (p1 - p2) / d21
    v23 = (p3 - p2) / d23

    # calculate vector rotating v21 to v23
    t = v21.dot(v23)
''', '''    t = (p1 - p2).dot(p3 - p2) / (d21 * d23)
'''),
('''    return make_hcs(scale=True, *args, **kwargs)
''', '''    return make_hcs(*args, scale=True, **kwargs)
'''),
('''    return to_cs * from_cs.inverse()
''', '''    inverse = from_cs.inverse()

    return to_cs * inverse
'''),
('''        return Scalar.tol_eq(self.x, other.x, *args, **kwargs) \\
        and Scalar.tol_eq(self.y, other.y, *args, **kwargs)
''', '''        return all(Scalar.tol_eq(a, b, *args, **kwargs) for a, b in ((self.x, other.x), (self.y, other.y)))
'''),
('''        return self.solve(self.identity(self.num_rows))
''', '''        n = self.num_rows

        return self.solve(Matrix.identity(n))
'''),
('''        if self.num_cols != other.num_rows:
            raise Exception('Matrix dimensions mismatch')

        return''', '''        if not self.num_cols == other.num_rows:
            raise ValueError('Matrix dimensions mismatch')

        return'''),
],
}
