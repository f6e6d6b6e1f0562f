"""C25: box relations are symmetric and agree with geometry."""
from fractions import Fraction

from symx.harness import Harness
from checks import lib as L

NOTE = 'Two boxes of any place and size (three for the unions), as plain elements and as horizontal, vertical or mixed lines of text.'
ASSUMPTIONS = ['coordinates on a 0.1 pt grid (unions: 0.02 pt)', 'boxes that exactly meet a threshold may be counted either way']


def box(c, k, lo=0.2, hi=None):
    hi = c.hi if hi is None else hi
    x, y = c.real(f'x{k}', 1, hi), c.real(f'y{k}', 1, hi)
    w, h = c.real(f'w{k}', lo, hi), c.real(f'h{k}', lo, hi)
    return x, y, x + w, y + h


def element(b, kind):
    """The element whose box this is."""
    from pdf2docx.common.Element import Element
    if kind == 'box':
        return Element().update_bbox(b)
    from pdf2docx.text.TextBlock import TextBlock
    from pdf2docx.text.Line import Line
    ln = Line(L.tline('a', *b, vertical=kind == 'up'))
    return TextBlock({'lines': [L.tline('a', *b, vertical=kind == 'up')]}) if kind == 'block' else ln


def along(b, axis):
    return b[axis], b[axis + 2]


def decide(c, got, over, what):
    """got follows the sign of `over` (free at zero)."""
    c.check(c.implies(over > 0, got), f'{what}: not seen')
    c.check(c.implies(over < 0, c.no(got)), f'{what}: seen where there is none')


def align(c):
    k1, k2 = c.kinds
    b1, b2 = box(c, 1), box(c, 2)
    a, b = element(b1, k1), element(b2, k2)
    f = c.choice('factor', c.factors)
    name = c.choice('relation', ('vertically', 'horizontally'))
    directed = c.choice('directed', (False, True))
    fun = name + '_align_with'
    got = c.true(getattr(a, fun)(b, factor=f, text_direction=directed))
    back = c.true(getattr(b, fun)(a, factor=f, text_direction=directed))
    c.observe([got, back])
    c.check(got == back, f'{name} aligned depends on which element asks')
    axis = 0 if name == 'vertically' else 1
    if directed and k1 == 'up':
        axis = 1 - axis
    (p0, p1), (q0, q1) = along(b1, axis), along(b2, axis)
    over = c.min(p1, q1) - c.max(p0, q0)
    decide(c, got, over - f * c.min(p1 - p0, q1 - q0), f'{name} aligned by {f}')
    c.cover(got)


def same_row(c):
    k1, k2 = c.kinds
    b1, b2 = box(c, 1), box(c, 2)
    a, b = element(b1, k1), element(b2, k2)
    got, back = c.true(a.in_same_row(b)), c.true(b.in_same_row(a))
    c.observe([got, back])
    c.check(got == back, 'in the same row depends on which element asks')
    if (k1 == 'up') != (k2 == 'up'):
        c.check(not got, 'text of different directions is never in one row')
        return
    axis = 0 if k1 == 'up' else 1
    (p0, p1), (q0, q1) = along(b1, axis), along(b2, axis)
    decide(c, got, c.min(2 * q1 - (p0 + p1), 2 * p1 - (q0 + q1)), 'same row')
    c.cover(got)


def cover(c):
    """contains: the share of the area covered."""
    b1, b2 = box(c, 1), box(c, 2)
    a, b = element(b1, 'box'), element(b2, 'box')
    t = c.choice('threshold', c.factors)
    got = c.true(a.contains(b, threshold=t))
    c.observe(got)
    ow, oh = (c.min(b1[i + 2], b2[i + 2]) - c.max(b1[i], b2[i]) for i in (0, 1))
    area = (b2[2] - b2[0]) * (b2[3] - b2[1])
    if got:
        c.check(c.both(ow >= 0, oh >= 0, ow * oh >= (t - 0.0051) * area), f'containing covers less than {t} of the area')
    inside = c.both(b1[0] <= b2[0], b1[1] <= b2[1], b1[2] >= b2[2], b1[3] >= b2[3])
    c.check(c.implies(inside, got), 'a box inside another is not contained')
    c.cover(got)


def merge(c):
    """get_main_bbox: the union of boxes that overlap by more than the share of the smaller one."""
    b1, b2 = box(c, 1), box(c, 2)
    a, b = element(b1, c.kinds[0]), element(b2, c.kinds[1])
    t = c.choice('threshold', c.factors)
    m1, m2 = a.get_main_bbox(b, t), b.get_main_bbox(a, t)
    c.check((m1 is None) == (m2 is None), 'merging depends on which element asks')
    ow, oh = (c.min(b1[i + 2], b2[i + 2]) - c.max(b1[i], b2[i]) for i in (0, 1))
    s1, s2 = ((q[2] - q[0]) * (q[3] - q[1]) for q in (b1, b2))
    small = c.ite(s1 < s2, s1, s2)
    if m1 is None:
        c.check(c.no(c.both(ow > 0, oh > 0, ow * oh > t * small)), f'boxes overlapping by more than {t} are not merged')
    else:
        c.check(c.both(ow >= 0, oh >= 0, ow * oh >= t * small), f'boxes overlapping by less than {t} are merged')
        union(c, m1, [b1, b2], 0)
        union(c, m2, [b1, b2], 0)
    c.cover(m1 is not None)
    c.observe(m1 is None)


def union(c, got, bs, tol):
    want = [c.min(*[b[0] for b in bs]), c.min(*[b[1] for b in bs]), c.max(*[b[2] for b in bs]), c.max(*[b[3] for b in bs])]
    c.check(c.both(*[c.near(u, v, tol + 1e-6) for u, v in zip(tuple(got), want)]), 'not the smallest box around the merged boxes')


def join(c):
    """Boxes merged one after the other, by element, line, block and collection."""
    from pdf2docx.text.TextBlock import TextBlock
    from pdf2docx.common.Collection import Collection
    from pdf2docx.text.Lines import Lines
    n = c.n
    bs = []
    for k in range(n):
        x, y = c.real(f'x{k}', 1, c.hi, Fraction(1, 50)), c.real(f'y{k}', 1, c.hi, Fraction(1, 50))
        bs.append((x, y, x + c.real(f'w{k}', 0.2, c.hi, Fraction(1, 50)), y + c.real(f'h{k}', 0.2, c.hi, Fraction(1, 50))))
    how = c.choice('how', ('element', 'collection', 'lines', 'block', 'shrink'))
    els = [element(b, 'box') for b in bs]
    if how == 'element':
        got = els[0]
        for e in els[1:]:
            got.union_bbox(e)
        got = got.bbox
    elif how == 'collection':
        got = Collection(els).bbox
    elif how == 'lines':
        got = Lines([element(b, 'line') for b in bs]).bbox
    elif how == 'block':
        got = TextBlock({'lines': [L.tline('a', *b) for b in bs]}).bbox
    else:
        tb = TextBlock({'lines': [L.tline('a', *b) for b in bs[:1]]})
        for b in bs[1:]:
            tb.add(element(b, 'line'))
        got = tb.bbox
    union(c, got, bs, 0.05 if how != 'element' else 0.05)
    c.observe(list(got))
    c.cover(how)


def share(c):
    """split_with_intersection: by share of the area covered."""
    from pdf2docx.common.Collection import Collection
    b1, b2 = box(c, 1), box(c, 2)
    import fitz
    t = c.choice('threshold', c.factors)
    e = element(b1, 'box')
    ins, out = Collection([e]).split_with_intersection(fitz.Rect(*b2), t)
    c.check(len(ins) + len(out) == 1, 'a box is lost or duplicated')
    ow, oh = (c.min(b1[i + 2], b2[i + 2]) - c.max(b1[i], b2[i]) for i in (0, 1))
    area = (b1[2] - b1[0]) * (b1[3] - b1[1])
    if len(ins):
        c.check(c.both(ow >= 0, oh >= 0, ow * oh >= (t - 0.0051) * area), f'a box covered by less than {t} is counted as inside')
    else:
        c.check(c.no(c.both(ow > 0, oh > 0, ow * oh > (t + 0.0051) * area)), f'a box covered by more than {t} is counted as outside')
    c.cover(len(ins))


F = (0.0, 0.1, 0.5, 0.9)
HARNESSES = [
    Harness('align_boxes', align, 'two boxes, column and row bands, factors 0 to 0.9', quick=dict(kinds=('box', 'box'), factors=F, hi=100),
            thorough=dict(kinds=('box', 'box'), factors=(0.0, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.95, 1.0), hi=1000), covers=[True, False]),
    Harness('align_lines', align, 'two horizontal lines', quick=dict(kinds=('line', 'line'), factors=F, hi=100), covers=[True, False]),
    Harness('align_up', align, 'two vertical lines', quick=dict(kinds=('up', 'up'), factors=F, hi=100), covers=[True, False]),
    Harness('align_block', align, 'a line and a block', quick=dict(kinds=('line', 'block'), factors=F, hi=100), covers=[True, False]),
    Harness('row_boxes', same_row, 'two boxes', quick=dict(kinds=('box', 'box'), hi=1000), covers=[True, False]),
    Harness('row_lines', same_row, 'two horizontal lines', quick=dict(kinds=('line', 'line'), hi=1000), covers=[True, False]),
    Harness('row_up', same_row, 'two vertical lines', quick=dict(kinds=('up', 'up'), hi=1000), covers=[True, False]),
    Harness('row_mixed', same_row, 'a horizontal and a vertical line', quick=dict(kinds=('line', 'up'), hi=1000)),
    Harness('contains', cover, 'two boxes, shares 0.1 to 1', quick=dict(factors=(0.1, 0.5, 0.75, 0.9, 1.0), hi=100),
            thorough=dict(factors=(0.05, 0.1, 0.25, 0.5, 0.75, 0.9, 0.95, 1.0), hi=1000), covers=[True, False]),
    Harness('merge', merge, 'two boxes, shares 0.1 to 1', quick=dict(kinds=('box', 'box'), factors=(0.1, 0.5, 0.75, 0.9, 1.0), hi=100),
            covers=[True, False]),
    Harness('merge_lines', merge, 'two lines', quick=dict(kinds=('line', 'line'), factors=(0.5, 0.9), hi=100), covers=[True, False]),
    Harness('join', join, 'three boxes joined in any way', quick=dict(n=3, hi=100), thorough=dict(n=4, hi=1000),
            covers=['element', 'collection', 'lines', 'block', 'shrink']),
    Harness('share', share, 'two boxes, shares 0.1 to 0.9', quick=dict(factors=(0.1, 0.5, 0.9), hi=100), covers=[0, 1]),
]
