"""Symbolic stand-ins for the native helpers behind fitz.Rect/Point/Matrix.

``fitz.Rect`` & co. are Python classes whose arithmetic is done by a handful of
C functions.  Those functions are replaced by exact-arithmetic Python versions that
accept symbolic numbers; ``symx/selftest.py`` compares them with the C functions.
"""
import fitz
import sys
F = sys.modules[fitz.Rect.__module__]

from .core import SymNum, SymBool, s_and, s_or, s_not, smax, smin, ite
from .shadows import SFloat

_saved = {}
INF0, INF1 = -2147483648.0, 2147483520.0


def _f(x):
    return x if isinstance(x, SymNum) else float(x)


def _sym(*xs):
    return any(isinstance(x, SymNum) for x in xs)


def make_rect(args):
    a = args
    while len(a) == 1 and hasattr(a[0], '__len__'):
        a = a[0]
    if len(a) == 0:
        return (0.0, 0.0, 0.0, 0.0)
    if len(a) == 4:
        return tuple(_f(x) for x in (a[0], a[1], a[2], a[3]))
    if len(a) == 2:
        p, q = a
        return (_f(p[0]), _f(p[1]), _f(q[0]), _f(q[1]))
    if len(a) == 3:
        if hasattr(a[0], '__len__'):
            return (_f(a[0][0]), _f(a[0][1]), _f(a[1]), _f(a[2]))
        return (_f(a[0]), _f(a[1]), _f(a[2][0]), _f(a[2][1]))
    raise ValueError('Rect: bad seq len')


def intersect_rect(a, b):
    return (smax(a[0], b[0]), smax(a[1], b[1]), smin(a[2], b[2]), smin(a[3], b[3]))


def union_rect(a, b):
    return (smin(a[0], b[0]), smin(a[1], b[1]), smax(a[2], b[2]), smax(a[3], b[3]))


def include_point(r, p):
    return (smin(r[0], p[0]), smin(r[1], p[1]), smax(r[2], p[0]), smax(r[3], p[1]))


def point_in_rect(p, r):
    return bool(s_and(p[0] >= r[0], p[0] < r[2], p[1] >= r[1], p[1] < r[3]))


def transform_point(p, m):
    a, b, c, d, e, f = m
    x, y = p[0], p[1]
    return (x * a + y * c + e, x * b + y * d + f)


def transform_rect(r, m):
    a, b, c, d, e, f = m
    x0, y0, x1, y1 = r[0], r[1], r[2], r[3]
    if b == 0 and c == 0:
        if a < 0:
            x0, x1 = x1, x0
        if d < 0:
            y0, y1 = y1, y0
        return (x0 * a + e, y0 * d + f, x1 * a + e, y1 * d + f)
    if a == 0 and d == 0:
        if b < 0:
            x0, x1 = x1, x0
        if c < 0:
            y0, y1 = y1, y0
        return (y0 * c + e, x0 * b + f, y1 * c + e, x1 * b + f)
    pts = [transform_point(p, m) for p in ((x0, y0), (x0, y1), (x1, y1), (x1, y0))]
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return (smin(xs), smin(ys), smax(xs), smax(ys))


def concat_matrix(m, n):
    a, b, c, d, e, f = m
    A, B, C, D, E, G = n
    return (a * A + b * C, a * B + b * D, c * A + d * C, c * B + d * D,
            e * A + f * C + E, e * B + f * D + G)


def invert_matrix(m):
    a, b, c, d, e, f = m
    det = a * d - b * c
    if det == 0:
        return (1, ())
    A, B, C, D = d / det, -b / det, -c / det, a / det
    return (0, (A, B, C, D, -e * A - f * C, -e * B - f * D))


def _is_infinite(self):
    c = (self.x0, self.y0, self.x1, self.y1)
    if _sym(*c):
        return False        # symbolic coordinates are bounded
    return c[0] == c[1] == INF0 and c[2] == c[3] == INF1


def _is_empty(self):
    return s_or(self.x0 >= self.x1, self.y0 >= self.y1)


def _is_valid(self):
    return s_and(self.x0 <= self.x1, self.y0 <= self.y1)


def _width(self):
    d = self.x1 - self.x0
    return ite(self.x1 > self.x0, d, 0)


def _height(self):
    d = self.y1 - self.y0
    return ite(self.y1 > self.y0, d, 0)


def _rect_bool(self):
    return bool(s_not(s_and(self.x0 == 0, self.y0 == 0, self.x1 == 0, self.y1 == 0)))


def _rect_eq(self, r):
    if not hasattr(r, '__len__') or len(r) != 4:
        return False
    return s_and(self.x0 == r[0], self.y0 == r[1], self.x1 == r[2], self.y1 == r[3])


def _rect_contains(self, x):
    if hasattr(x, '__float__'):
        return x in tuple(self)
    if len(x) == 2:
        return point_in_rect(x, self)
    if len(x) == 4:
        r = fitz.Rect(x)
        return bool(s_and(self.x0 <= r.x0, r.x0 <= r.x1, r.x1 <= self.x1,
                          self.y0 <= r.y0, r.y0 <= r.y1, r.y1 <= self.y1))
    return False


def _rect_normalize(self):
    if bool(self.x1 < self.x0):
        self.x0, self.x1 = self.x1, self.x0
    if bool(self.y1 < self.y0):
        self.y0, self.y1 = self.y1, self.y0
    return self


def _contains_method(self, x):
    return _rect_contains(self, x)


def _point_bool(self):
    return bool(s_not(s_and(self.x == 0, self.y == 0)))


def _point_eq(self, p):
    if not hasattr(p, '__len__') or len(p) != 2:
        return False
    return s_and(self.x == p[0], self.y == p[1])


def _round_rect(r):
    import math
    return (math.floor(r[0] + 0.001), math.floor(r[1] + 0.001),
            math.ceil(r[2] - 0.001), math.ceil(r[3] - 0.001))


GLOBALS = dict(util_make_rect=make_rect, util_intersect_rect=intersect_rect,
               util_union_rect=union_rect, util_include_point_in_rect=include_point,
               util_is_point_in_rect=point_in_rect, util_transform_point=transform_point,
               util_transform_rect=transform_rect, util_concat_matrix=concat_matrix,
               util_invert_matrix=invert_matrix, util_round_rect=_round_rect, float=SFloat)
RECT = dict(is_infinite=property(_is_infinite), isInfinite=property(_is_infinite),
            is_empty=property(_is_empty), isEmpty=property(_is_empty),
            is_valid=property(_is_valid), width=property(_width), height=property(_height),
            __bool__=_rect_bool, __eq__=_rect_eq, __contains__=_rect_contains,
            contains=_contains_method, normalize=_rect_normalize)
POINT = dict(__bool__=_point_bool, __eq__=_point_eq)


def install():
    for k, v in GLOBALS.items():
        setattr(F, k, v)
    for k, v in RECT.items():
        setattr(fitz.Rect, k, v)
    for k, v in POINT.items():
        setattr(fitz.Point, k, v)
