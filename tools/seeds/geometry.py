G = "solver/geometry.py"
seed("c11_zero_tol", "C11", [(G, "        if abs_tol is None:\n", "        if not abs_tol:\n")], '''
from solver.geometry import Scalar
assert not Scalar.tol_eq(1e-9, 0, abs_tol=0), "an absolute tolerance of zero is ignored"
assert Scalar.tol_gt(5e-9, 0, 0, 0)
''', "an explicitly given absolute tolerance of exactly 0", "a given zero tolerance is replaced by the default, so different numbers compare equal")
seed("c13_transpose_tall", "C13", [(G, "            for col in range(self.num_rows):\n                t_row.append(self.elements[col][row])", "            for col in range(min(self.num_rows, 3)):\n                t_row.append(self.elements[col][row])")], '''
from solver.geometry import Matrix
m = Matrix([[i * 2.0, i * 2.0 + 1] for i in range(4)])
assert m.transpose().elements == [[0, 2, 4, 6], [1, 3, 5, 7]], m.transpose().elements
''', "a matrix with more than three rows", "transpose drops every row after the third")
seed("c14_chord_through_centre", "C14", [(G, "            p3b = p1 + Vector(p1.y - p2.y, p2.x - p1.x) * r1/d", "            p3b = p1 + Vector(p1.y - p2.y, p1.x - p2.x) * r1/d")], '''
import math
from solver.geometry import Vector, cc_int
p1, p2 = Vector(0, 0), Vector(3, 4)
for q in cc_int(p1, 5.0, p2, math.sqrt(50)):
    assert abs((q - p1).length - 5) < 1e-6 and abs((q - p2).length - math.sqrt(50)) < 1e-6, (q.x, q.y)
''', "circles whose common chord passes through the first centre (r2^2 = r1^2 + d^2), centres not on an axis", "the second intersection point is not on the circles")
seed("c15_horizontal_line", "C15", [(G, "        if x > 0:\n            return 1\n\n        return -1", "        if x > 0:\n            return 1\n        elif x < 0:\n            return -1\n        return 0")], '''
from solver.geometry import Vector, cl_int
s = cl_int(Vector(0, 0), 5.0, Vector(1, 3), Vector(1, 0))
assert sorted(round(p.x, 6) for p in s) == [-4, 4], [(p.x, p.y) for p in s]
''', "a line that is exactly parallel to the x axis", "a secant gives the foot of the perpendicular twice instead of the two intersection points")
seed("c16_wrong_direction", "C16", [(G, "    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):", "    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v1), 0):")], '''
from solver.geometry import Vector, lr_int
assert len(lr_int(Vector(0, -5), Vector(-1, 0.5), Vector(0, 0), Vector(1, 1))) == 0
assert len(lr_int(Vector(0, 5), Vector(-1, 0.5), Vector(0, 0), Vector(1, 1))) == 1
''', "a line whose direction makes an obtuse angle with the direction from the ray's origin to the point", "points behind the ray's origin are returned and points in front are dropped")
seed("c18_clip", "C18", [(G, "    elif t < -1.0:\n        t = -1.0", "    elif t < -1.0:\n        t = 1.0")], '''
import math, random
from solver.geometry import Vector, angle_3p
r = random.Random(1)
for _ in range(20000):
    a, b = Vector(r.uniform(-9, 9), r.uniform(-9, 9)), Vector(r.uniform(-9, 9), r.uniform(-9, 9))
    c = b - (a - b) * r.uniform(0.1, 3)
    assert abs(abs(angle_3p(a, b, c)) - math.pi) < 1e-3, (a, b, c)
''', "a straight angle whose normalised dot product is rounded below -1", "the angle of such a triple is 0 instead of pi")
seed("c12_rotate_axis", "C12", [(G, "        y = self.x * math.sin(math.radians(azimuth)) \\\n        + self.y * math.cos(math.radians(azimuth))", "        y = self.x * math.sin(math.radians(azimuth)) \\\n        + abs(self.y) * math.cos(math.radians(azimuth))")], '''
from solver.geometry import Vector
v = Vector(1, -2).rotate(30)
assert abs(v.length - Vector(1, -2).length) < 1e-9, v.length
''', "a vector with a negative second coordinate", "the rotated vector has another length or direction")
seed("c17_long_edges", "C17", [(G, "    return Scalar.tol_gt(perp_u.dot(v), 0)", "    return Scalar.tol_gt(perp_u.dot(v), 0, abs_tol=Scalar.abs_tol * (1 + u.dot(u)))")], '''
from solver.geometry import Vector, is_clockwise, is_counterclockwise, is_flat
p = Vector(0, 0), Vector(1e6, 0), Vector(2e6, 1e-9)
assert [is_clockwise(*p), is_counterclockwise(*p), is_flat(*p)].count(True) == 1
''', "a triangle that turns left by less than the squared length of its first edge times the tolerance", "it is neither clockwise, counter-clockwise nor flat")
seed("c18_zero_arm", "C18", [(G, "    if Scalar.tol_zero(d21) or Scalar.tol_zero(d23):", "    if Scalar.tol_zero(d21) and Scalar.tol_zero(d23):")], '''
from solver.geometry import Vector, angle_3p
assert angle_3p(Vector(0, 0), Vector(0, 0), Vector(1, 1)) is None
''', "exactly one arm of zero length", "the function divides by zero")
seed("c19_scaled_axis", "C19", [(G, "    if not scale:\n", "    if not scale or u.length < 1:\n")], '''
from solver.geometry import Vector, make_hcs_scaled
m = make_hcs_scaled(Vector(0, 0), Vector(0.5, 0))
assert abs(m.elements[0][0] - 0.5) < 1e-9, m
''', "a scaled frame of two points less than one unit apart", "the axes have unit length instead of the distance")
seed("c14_nested", "C14", [(G, "    if Scalar.tol_lt(a, b):\n        return []", "    if Scalar.tol_lt(a, b) and d > abs(r1 - r2):\n        return []")], '''
from solver.geometry import Vector, cc_int
assert cc_int(Vector(0, 0), 1.0, Vector(1, 0), 10.0) == []
''', "a circle inside another one without touching it", "a point is returned although the circles do not meet")
seed("c11_vector_max", "C11", [(G, "        return Scalar.tol_eq(self.x, other.x, *args, **kwargs) \\\n        and Scalar.tol_eq(self.y, other.y, *args, **kwargs)", "        return Scalar.tol_eq((self - other).length, 0, *args, **kwargs)")], '''
from solver.geometry import Vector
assert Vector(1000, 1000).tol_eq(Vector(1000.001, 1000.001))
''', "large vectors that differ by less than the relative tolerance", "they are not tolerantly equal")
seed("c13_mul_square", "C13", [(G, "        return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \\\n        for col_b in zip(*other.elements)] for row_a in self.elements])", "        return Matrix([[sum(a * b for a, b in zip(row_a, other.elements[j] if self.elements is other.elements and other.num_rows == other.num_cols else col_b)) \\\n        for j, col_b in enumerate(zip(*other.elements))] for row_a in self.elements])")], '''
from solver.geometry import Matrix
m = Matrix([[1.0, 2.0], [3.0, 4.0]])
assert (m * m).elements == [[7, 10], [15, 22]], (m * m).elements
''', "the product of a square matrix with itself (the same object)", "the second operand is taken transposed")
seed("c12_azimuth_left", "C12", [(G, "        return math.degrees(math.atan2(self.y, self.x))", "        return math.degrees(math.atan2(self.y, self.x) if self.y else 0.0)")], '''
from solver.geometry import Vector
assert abs(Vector(-2, 0).azimuth - 180) < 1e-9, Vector(-2, 0).azimuth
''', "a vector that points exactly to the left", "its azimuth is 0 instead of 180 degrees")
seed("c15_touching", "C15", [(G, "    elif Scalar.tol_zero(E):\n", "    elif Scalar.tol_zero(E) and D >= 0:\n")], '''
from solver.geometry import Vector, cl_int
assert len(cl_int(Vector(0, 0), 5.0, Vector(0, 5), Vector(1, 0))) == 1
assert len(cl_int(Vector(0, 0), 5.0, Vector(0, 5), Vector(-1, 0))) == 1
''', "a tangent that runs clockwise around the circle", "no point is returned")
