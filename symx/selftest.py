"""Compare the stand-ins for fitz' native helpers with the native ones (setup_cmd)."""
import random

from . import env


def run():
    env.load_target()
    import fitz
    from . import core, fitzsym as S
    import z3
    core.set_engine(core.Engine())
    F = S.F
    rnd = random.Random(1)
    # multiples of 1/8: exactly representable as float32
    val = lambda: rnd.randint(-400, 400) / 8.0
    n = 0

    def close(a, b):
        a, b = list(a), list(b)
        return len(a) == len(b) and all(abs(x - y) <= 1e-3 * max(1, abs(x)) for x, y in zip(a, b))

    def rect():
        k = rnd.random()
        if k < .7:
            x, y = val(), val()
            return fitz.Rect(x, y, x + abs(val()), y + abs(val()))
        if k < .85:
            return fitz.Rect(val(), val(), val(), val())
        x, y = val(), val()
        return rnd.choice([fitz.Rect(), fitz.Rect(x, y, x, y), fitz.Rect(x, y, x + 3, y)])
    mats = [fitz.Matrix(0.0), fitz.Matrix(0, 1, -1, 0, 200, 0), fitz.Matrix(-1, 0, 0, -1, 300, 200),
            fitz.Matrix(0, -1, 1, 0, 0, 100), fitz.Matrix(2, 0, 0, .5, 1, 2)]
    orig = {k: getattr(F, k) for k in S.GLOBALS if hasattr(F, k)}
    for _ in range(3000):
        a, b, m, m2 = rect(), rect(), rnd.choice(mats), rnd.choice(mats)
        p = fitz.Point(val(), val())
        for name, args in [('util_intersect_rect', (a, b)), ('util_union_rect', (a, b)),
                           ('util_transform_rect', (a, m)), ('util_transform_point', (p, m)),
                           ('util_include_point_in_rect', (a, p)), ('util_concat_matrix', (m, m2))]:
            if name == 'util_union_rect' and (a.isEmpty or b.isEmpty):
                continue
            if name == 'util_intersect_rect' and (a.isEmpty or b.isEmpty):
                continue
            if name == 'util_transform_rect' and not a.is_valid:
                continue
            want, got = orig[name](*args), S.GLOBALS[name](*args)
            assert close(want, got), (name, args, want, got)
            n += 1
        assert bool(orig['util_is_point_in_rect'](p, a)) == bool(S.point_in_rect(p, a)), (p, a)
        for k in ('isEmpty', 'width', 'height'):
            want = getattr(a, k)
            got = S.RECT[k].fget(a)
            assert (close([want], [got]) if k in ('width', 'height') else bool(want) == bool(got)), (k, a, want, got)
        assert bool(a) == S._rect_bool(a)
        assert bool(a == b) == bool(S._rect_eq(a, b))
        assert bool(b in a) == S._rect_contains(a, b), (a, b)
        assert bool(a.contains(b)) == S._rect_contains(a, b), (a, b)
        n += 5
    # high-level operators before and after installing the stand-ins
    cases = []
    for _ in range(3000):
        a, b = rect(), rect()
        p = fitz.Point(val(), val())
        m = rnd.choice(mats)
        cases.append((tuple(a), tuple(b), tuple(p), tuple(m)))

    def ops(c):
        a, b, p, m = fitz.Rect(c[0]), fitz.Rect(c[1]), fitz.Point(c[2]), fitz.Matrix(*c[3])
        r = [list(a & b), list(a | b), list(a + (1, 2, 3, 4)), list(a - b), list(fitz.Rect(a).include_rect(b)),
             list(fitz.Rect(a).intersect(b)), bool(a.intersects(b)), a.getArea(), abs(a), list(a.tl), list(a.br),
             list(p * m), p in a, bool(a.isEmpty), list(a | p)]
        if a.is_valid:
            r.append(list(a * m))
        return r
    before = [ops(c) for c in cases]
    S.install()

    def cmp(x, y):
        if isinstance(x, list):
            return close(x, y)
        if isinstance(x, bool):
            return x == bool(y)
        return abs(x - y) <= 1e-3 * max(1, abs(x))
    for c, w in zip(cases, before):
        g = ops(c)
        for i, (x, y) in enumerate(zip(w, g)):
            assert cmp(x, y), (c, i, x, y)
            n += 1
    s = z3.Solver()
    s.add(z3.Int('x') > 0)
    assert s.check() == z3.sat
    print(f'selftest: {n} comparisons of fitz stand-ins agree, z3 {z3.get_version_string()}')
    return 0
