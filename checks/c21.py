"""C21: cleaning and classifying shapes loses no border, fill or link."""
import itertools

from symx.harness import Harness
from checks import lib as L

NOTE = 'Two or three shapes (lines, rectangles, links) of any place, size and colour on, across or off the page; one or two lines of text with any stroke and fill.'
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'default settings: shapes merge at half overlap, minimum size 2 pt, borders up to 6 pt']
COLORS = ((1.0, 0.0, 0.0), (0.0, 0.0, 1.0), (0.0, 0.0, 0.0))
VALUES = (0xff0000, 0x0000ff, 0x000000)
PAGE = (600, 800)


def line(c, k, col, x0, x1):
    """A horizontal or vertical line; (drawing, box)."""
    x, y = c.real(f'x{k}', x0, x1), c.real(f'y{k}', x0, x1)
    d, w = c.real(f'd{k}', 0.2, c.size), c.choice(f't{k}', c.widths)
    p = (x, y, x + d, y) if c.choice(f'dir{k}', 'hv') == 'h' else (x, y, x, y + d)
    return L.dline(*p, width=w, color=col), (p[0] - w / 2, p[1] - w / 2, p[2] + w / 2, p[3] + w / 2)


def rect(c, k, x0, x1):
    x, y = c.real(f'x{k}', x0, x1), c.real(f'y{k}', x0, x1)
    return x, y, x + c.real(f'w{k}', 0.2, c.size), y + c.real(f'h{k}', 0.2, c.size)


def near(c, a, b, tol=0.111):
    return c.both(*[c.near(u, v, tol) for u, v in zip(tuple(a), tuple(b))])


def inside(c, a, b, tol=0.111):
    """a within b"""
    return c.both(a[0] >= b[0] - tol, a[1] >= b[1] - tol, a[2] <= b[2] + tol, a[3] <= b[3] + tol)


def union(c, bs):
    return (c.min(*[b[0] for b in bs]), c.min(*[b[1] for b in bs]), c.max(*[b[2] for b in bs]), c.max(*[b[3] for b in bs]))


def overlap(c, a, b):
    """a and b overlap by at least half of the smaller one."""
    w, h = c.min(a[2], b[2]) - c.max(a[0], b[0]), c.min(a[3], b[3]) - c.max(a[1], b[1])
    s1, s2 = ((q[2] - q[0]) * (q[3] - q[1]) for q in (a, b))
    return c.both(w >= 0, h >= 0, c.either(w * h >= 0.5 * s1, w * h >= 0.5 * s2))


def kept(c, b):
    """The shape must be kept: on the page and big enough."""
    return c.both(b[0] < PAGE[0] - .1, b[1] < PAGE[1] - .1, b[2] > .1, b[3] > .1,
                  c.either(b[2] - b[0] >= 2.1, b[3] - b[1] >= 2.1))


def clean(c):
    n = len(c.kinds)
    draws, links, items = [], [], []
    for k, kind in enumerate(c.kinds):
        i = 2 if 'link' in c.kinds else 0 if k == 0 or not c.colours else c.pick(f'col{k}', 0, 1)     # black as links are
        lo, hi = c.area
        if kind == 'line':
            d, b = line(c, k, COLORS[i], lo, hi)
            draws.append(d)
        else:
            b = rect(c, k, lo, hi)
            if kind == 'fill':
                draws.append(L.dfill(*b, fill=COLORS[i]))
            else:
                links.append(b)
        items.append((kind, VALUES[i], b))

    # decide how the boxes lie to each other first: keeps the areas below simple
    for (k1, v1, a), (k2, v2, b) in itertools.combinations(items, 2):
        if v1 == v2 and 'link' not in (k1, k2):
            if c.true(c.both(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3])):
                for i in range(4):
                    c.true(a[i] < b[i])

    def pdf_links():
        import fitz
        return [{'kind': 2, 'from': fitz.Rect(*b), 'uri': f'http://x/{k}'} for k, b in enumerate(links)]
    page = L.cleaned(L.FakePage(0, *PAGE, drawings=lambda: draws, links=pdf_links))
    got = page.store()['shapes']
    shapes = [(r['color'], tuple(r['bbox'])) for r in got if 'uri' not in r]
    for k, (kind, col, b) in enumerate(items):
        if kind == 'link':
            continue
        c.check(c.implies(kept(c, b), c.either(False, *[inside(c, b, q) for v, q in shapes if v == col])),
                'a drawn shape is not covered by any kept shape of its colour')
    for v, q in shapes:
        same = [b for kind, col, b in items if col == v and kind != 'link']
        if c.true(c.either(False, *[near(c, q, b) for b in same])):
            continue
        for p in itertools.chain(itertools.combinations(same, 2), itertools.permutations(same, 3)):
            if c.true(near(c, q, union(c, p))) and c.true(overlap(c, p[0], p[1])) and \
                    (len(p) == 2 or c.true(overlap(c, union(c, p[:2]), p[2]))):
                break
        else:
            c.fail('a kept shape is neither a drawn one nor merged from overlapping ones of its colour')
    c.check(len(shapes) <= len([1 for i in items if i[0] != 'link']), 'there are more shapes than drawn')
    lk = [r for r in got if 'uri' in r]
    for k, b in enumerate(links):
        mine = [r for r in lk if r['uri'] == f'http://x/{k}']
        c.check(len(mine) <= 1, 'a link is duplicated')
        c.check(c.implies(kept(c, b), len(mine) == 1), 'a link is lost')
        for r in mine:
            c.check(near(c, r['bbox'], b, 0.051), 'a link is changed')
    classified(c, page)
    c.cover(len(shapes))
    c.observe([list(q) for v, q in shapes])


def classified(c, page):
    s = page.layout.shapes
    offered = [id(e) for g in (s.table_strokes, s.table_fillings, s.text_underlines_strikes, s.text_highlights) for e in g]
    for e in s:
        c.check(id(e) in offered or hasattr(e, 'uri'), 'a shape is offered neither as border, shading nor text style')
        c.check(not (hasattr(e, 'uri') and id(e) in offered), 'a link is offered as border, shading or text style')
    return s


def classify(c):
    """A stroke and a fill beside, across or in lines of text."""
    rows = [(100, 100, 220, 112), (100, 130, 220, 142), (100, 400, 220, 412)]
    if c.beside:
        rows[1] = (240, 100, 300, 130)
    texts = [L.tline('abcdef', *r) for r in rows]
    blocks = [L.block(texts[:2]), L.block(texts[2:])] if c.blocks == 2 else [L.block([t]) for t in texts]
    x, y = c.real('x', 60, 320), c.real('y', 60, 440)
    d, w = c.real('d', 3, 200), c.real('t', 0.2, 5)
    horizontal = c.choice('dir', 'hv') == 'h'
    p = (x, y, x + d, y) if horizontal else (x, y, x, y + d)
    sb = (p[0] - w / 2, p[1] - w / 2, p[2] + w / 2, p[3] + w / 2)
    if c.fill:
        draws = [L.dfill(*p[:2], p[2] + (0 if horizontal else 8), p[3] + (8 if horizontal else 0), fill=COLORS[0])]
    else:
        draws = [L.dline(*p, width=w, color=COLORS[0])]
    page = L.cleaned(L.FakePage(0, *PAGE, drawings=lambda: draws, content=lambda: blocks))
    s = classified(c, page)
    c.check(len(list(s)) == 1, 'the shape is lost')
    border = len(s.table_strokes) > 0
    style = len(s.text_underlines_strikes) > 0 or len(s.text_highlights) > 0
    if c.fill:
        b = tuple(list(s)[0].bbox)
        covers = c.either(*[c.both(b[0] <= r[0], b[1] <= r[1], b[2] >= r[2], b[3] >= r[3]) for r in rows])
        c.check(c.implies(covers, len(s.table_fillings) > 0), 'a fill behind a line of text is not offered as shading')
        c.check(c.either(style, len(s.table_fillings) > 0), 'a fill is no text style nor shading')
    else:
        in_line = c.either(*[inside(c, sb, r, -0.06) for r in rows])
        out = c.both(*[c.either(sb[0] > r[2] + .1, sb[2] < r[0] - .1, sb[1] > r[3] + .1, sb[3] < r[1] - .1) for r in rows])
        c.check(c.implies(in_line, c.no(border)), 'a stroke inside a line of text is offered as border')
        c.check(style, 'a stroke is not offered as text style')
        c.check(c.implies(out, border), 'a stroke away from text is not offered as border')
    c.cover((border, style, len(s.table_fillings) > 0))
    c.observe([border, style, len(s.table_fillings)])


def pair(*kinds, **kw):
    return dict(dict(kinds=kinds, colours=True, area=(20, 60), size=60, widths=(0.6, 4.0)), **kw)


HARNESSES = [
    Harness('fills', clean, 'two filled rectangles, same colour or not', quick=pair('fill', 'fill'), covers=[1, 2]),
    Harness('lines', clean, 'two lines', quick=pair('line', 'line'), covers=[1, 2]),
    Harness('line_fill', clean, 'a line and a filled rectangle', quick=pair('line', 'fill', widths=(2.0,)), thorough=pair('line', 'fill'), covers=[1, 2]),
    Harness('link_fill', clean, 'two links and a filled rectangle', quick=pair('link', 'link', 'fill', colours=False)),
    Harness('link_line', clean, 'a link and a line', quick=pair('link', 'line')),
    Harness('edge_fill', clean, 'a filled rectangle on, across or off the page', quick=pair('fill', area=(-70, 70)), covers=[0, 1]),
    Harness('edge_line', clean, 'a line on, across or off the page', quick=pair('line', area=(-70, 70)), covers=[0, 1]),
    Harness('edge_link', clean, 'a link on, across or off the page', quick=pair('link', area=(-70, 70))),
    Harness('far', clean, 'a filled rectangle at the far edges of the page', quick=pair('fill', area=(540, 860))),
    Harness('three_fills', clean, 'three filled rectangles of one colour', quick=False, thorough=pair('fill', 'fill', 'fill', colours=False)),
    Harness('three_mixed', clean, 'two lines and a rectangle of one colour', quick=False, thorough=pair('line', 'fill', 'line', colours=False)),
    Harness('stroke', classify, 'a stroke anywhere among three lines of text in two blocks', quick=dict(blocks=2, beside=False, fill=False),
            covers=[(True, True, False), (False, True, False)]),
    Harness('stroke_rows', classify, 'the same with one block per line, two of them side by side', quick=dict(blocks=3, beside=True, fill=False),
            covers=[(True, True, False), (False, True, False)]),
    Harness('fill', classify, 'a fill anywhere among three lines of text in two blocks', quick=dict(blocks=2, beside=False, fill=True)),
]
