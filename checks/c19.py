"""C19: drawn lines and rectangles become shapes at the drawn place."""
from fractions import Fraction

from symx.harness import Harness
from checks import lib as L

NOTE = 'Paths as PyMuPDF lists them (lines, closed polygons, rectangles, fills), any place, size, width; up to three sub-paths.'
ASSUMPTIONS = ['stroke widths of at least 0.1 pt', 'paths lie on the page', 'exact arithmetic in place of floating point',
               'open paths with a bend and polygons that are no rectangle count as vector graphics (C26)']
COLORS = ((1.0, 0.0, 0.0), (0.0, 0.0, 1.0), (0.0, 0.0, 0.0))
VALUES = (0xff0000, 0x0000ff, 0x000000)


def path(items, kind='s', color=None, fill=None, width=1.0, close=False):
    import fitz
    d = {'items': items, 'type': kind, 'color': color if 's' in kind else None, 'fill': fill if 'f' in kind else None,
         'width': width if 's' in kind else None, 'closePath': close if 's' in kind else None, 'even_odd': False if 'f' in kind else None, 'opacity': 1.0,
         'dashes': '[] 0', 'lineCap': (0, 0, 0), 'lineJoin': 0.0, 'rect': fitz.Rect(0, 0, 1, 1)}
    return d


def ln(p, q):
    import fitz
    return ('l', fitz.Point(*p), fitz.Point(*q))


def shapes_of(drawings):
    """Shapes of a page with these drawings (and no text)."""
    from pdf2docx.page.Page import Page
    page = L.FakePage(0, 600, 800, drawings=lambda: drawings)
    L.FakeDoc([page])
    raws = Page(page).raw_dict['shapes']
    return [r for r in raws if 'start' in r], [r for r in raws if 'start' not in r]


def same_edge(c, r, e):
    """Stroke r runs between the end points of edge e, in either direction."""
    p, q = tuple(r['start']), tuple(r['end'])
    a, b = e
    near = lambda u, v: c.both(c.near(u[0], v[0]), c.near(u[1], v[1]))
    return c.either(c.both(near(p, a), near(q, b)), c.both(near(p, b), near(q, a)))


def length0(c, r):
    (a, b), (p, q) = r['start'], r['end']
    return c.both(c.near(a, p), c.near(b, q))


def strokes(c, got, edges, width, color, optional=()):
    """The strokes are exactly the edges."""
    got = [r for r in got if not c.true(length0(c, r))]
    for e in edges:
        c.check(c.either(False, *[same_edge(c, r, e) for r in got]), 'a drawn line gets no stroke of the same end points')
    for r in got:
        c.check(c.either(False, *[same_edge(c, r, e) for e in list(edges) + list(optional)]), 'a stroke where nothing was drawn')
        if width is not None:
            c.check(c.near(r['width'], width), 'stroke of another width')
        c.check(r['color'] == color, 'stroke of another colour')
    c.check(len(edges) <= len(got) <= len(edges) + len(optional), f'{len(got)} strokes for {len(edges)} lines')
    c.observe([[list(r['start']), list(r['end'])] for r in got])


def fills(c, got, boxes, color):
    c.check(len(got) == len(boxes), f'{len(got)} fills for {len(boxes)} filled areas')
    for b in boxes:
        c.check(c.either(*[c.both(*[c.near(u, v, 0.006) for u, v in zip(tuple(r['bbox']), b)]) for r in got]),
                'a filled area gets no fill of the same box')
    for r in got:
        c.check(r['color'] == color, 'fill of another colour')
    c.observe([list(r['bbox']) for r in got])


def box(c, k, x0=20, y0=20, lo=1, step=200):
    x, y = c.real(f'x{k}', x0, x0 + 30), c.real(f'y{k}', y0 + step * k, y0 + 30 + step * k)
    return x, y, x + c.real(f'w{k}', lo, 300), y + c.real(f'h{k}', lo, 100)


def colour(c, name):
    i = c.pick(name, 0, len(COLORS) - 1)
    return COLORS[i], VALUES[i]


def lines(c):
    """Separate horizontal and vertical lines in one path."""
    col, val = colour(c, 'color')
    w = c.real('width', 0.1, 12)
    items, edges = [], []
    for k in range(c.n):
        x0, y0, x1, y1 = box(c, k)
        a, b = ((x0, y0), (x1, y0)) if c.choice(f'dir{k}', 'hv') == 'h' else ((x0, y0), (x0, y1))
        if c.true(c.bool(f'back{k}')):
            a, b = b, a
        items.append(ln(a, b))
        edges.append((a, b))
    close = c.true(c.bool('close'))
    s, f = shapes_of([path(items, 's', col, width=w, close=close)])
    strokes(c, s, edges, w, val)
    c.check(not f, 'a fill where nothing is filled')


def chain(c):
    """A straight line drawn in several pieces."""
    col, val = colour(c, 'color')
    w = c.real('width', 0.1, 12)
    x, y = c.real('x', 20, 100), c.real('y', 20, 100)
    pts = [(x, y)]
    vert = c.choice('dir', 'hv') == 'v'
    for k in range(c.n):
        d = c.real(f'd{k}', 0.5, 100)
        pts.append((x, pts[-1][1] + d) if vert else (pts[-1][0] + d, y))
    close = c.true(c.bool('close'))
    edges = list(zip(pts, pts[1:]))
    s, f = shapes_of([path([ln(a, b) for a, b in edges], 's', col, width=w, close=close)])
    strokes(c, s, edges, w, val, optional=[(pts[-1], pts[0])] if close else [])
    c.check(not f, 'a fill where nothing is filled')


def polygon(c):
    """Rectangles drawn as lines, closed explicitly or by the path."""
    col, val = colour(c, 'color')
    w = c.real('width', 0.1, 12)
    items, edges, boxes = [], [], []
    kind = c.choice('kind', ('s', 'f', 'fs'))
    # PyMuPDF: three lines and a flag, or four lines; a filled area is closed in any case
    close = c.true(c.bool('close'))
    for k in range(c.n):
        x0, y0, x1, y1 = b = box(c, k)
        p = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        r = c.pick(f'first{k}', 0, 3) if c.n == 1 else (1, 2)[k % 2]
        p = p[r:] + p[:r]
        if c.choice(f'turn{k}', (0, 1)):
            p = p[::-1]
        e = list(zip(p, p[1:] + p[:1]))
        items += [ln(a, q) for a, q in (e[:3] if close else e)]
        edges += e
        boxes.append(b)
    s, f = shapes_of([path(items, kind, col, col, w, close)])
    strokes(c, s, edges if 's' in kind else [], w, val)
    fills(c, f, boxes if 'f' in kind else [], val)
    c.cover((kind, close))


def quads(c):
    """Rectangles drawn with lines, which PyMuPDF lists as quads."""
    import fitz
    col, val = colour(c, 'color')
    w = c.real('width', 0.1, 12)
    items, edges, boxes = [], [], []
    kind = c.choice('kind', ('s', 'f', 'fs'))
    for k in range(c.n):
        x0, y0, x1, y1 = b = box(c, k)
        p = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        r = c.pick(f'first{k}', 0, 3)
        q = p[r:] + p[:r]
        if c.choice(f'turn{k}', (0, 1)):
            q = q[::-1]
        items.append(('qu', fitz.Quad(q[0], q[1], q[3], q[2])))
        edges += list(zip(p, p[1:] + p[:1]))
        boxes.append(b)
    if c.lines:
        x, y, d = c.real('ex', 400, 450), c.real('ey', 20, 200), c.real('ed', 1, 100)
        items.insert(c.pick('at', 0, c.n), ln((x, y), (x + d, y)))
        edges.append(((x, y), (x + d, y)))
        kind = 's'
    s, f = shapes_of([path(items, kind, col, col, w, c.true(c.bool('close')))])
    strokes(c, s, edges if 's' in kind else [], w, val)
    fills(c, f, boxes if 'f' in kind else [], val)
    c.cover(kind)


def flat(c):
    """Filled areas without height, width or both beside a filled rectangle: the rectangle is kept."""
    import fitz
    col, val = colour(c, 'color')
    b = box(c, 0)
    x, y = c.real('x', 20, 300), c.real('y', 300, 400)
    u, v = c.choice('size', ((0, 0), (1, 0), (0, 1)))
    u, v = u * c.real('u', 1, 100), v * c.real('v', 1, 100)
    if c.choice('how', ('re', 'l')) == 're':
        items = [('re', fitz.Rect(x, y, x + u, y + v), 1)]
    else:
        items = [ln((x, y), (x + u, y + v)), ln((x + u, y + v), (x, y))]
    rect = [('re', fitz.Rect(*b), 1)]
    if c.true(c.bool('same')):
        paths = [path(items + rect, 'f', fill=col)]
    else:
        paths = [path(items, 'f', fill=col), path(rect, 'f', fill=col)]
    s, f = shapes_of(paths)
    c.check(not s, 'a stroke where nothing is stroked')
    fills(c, [r for r in f if c.true(c.both(r['bbox'][3] > r['bbox'][1], r['bbox'][2] > r['bbox'][0]))], [b], val)


def rects(c):
    """Rectangles, with lines before and after them in the same path."""
    col, val = colour(c, 'color')
    w = c.real('width', 0.1, 12)
    kind = c.choice('kind', ('s', 'f', 'fs')) if not c.lines else 's'
    import fitz
    items, edges, boxes = [], [], []

    def extra(k):
        x, y, d = c.real(f'ex{k}', 400, 450), c.real(f'ey{k}', 20 + 250 * k, 200 + 250 * k), c.real(f'ed{k}', 1, 100)
        items.append(ln((x, y), (x + d, y)))
        edges.append(((x, y), (x + d, y)))
    if c.lines:
        extra(0)
    for k in range(c.n):
        x0, y0, x1, y1 = b = box(c, k)
        items.append(('re', fitz.Rect(*b), c.choice(f'o{k}', (1, -1)) if not c.lines else 1))
        p = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        edges += list(zip(p, p[1:] + p[:1]))
        boxes.append(b)
    if c.lines:
        extra(1)
    s, f = shapes_of([path(items, kind, col, col, w, c.true(c.bool('close')))])
    if 's' in kind:
        strokes(c, s, edges, None, val)
        for r in s:
            c.check(c.either(c.near(r['width'], w), c.near(r['width'], 2 * w)), 'stroke of another width')
    else:
        c.check(not s, 'a stroke where nothing is stroked')
    fills(c, f, boxes if 'f' in kind else [], val)
    c.cover(kind)


def between(c):
    """A line, a rectangle and a second line that starts where the first one ends: three sub-paths."""
    import fitz
    w = c.real('width', 0.1, 12)
    x, y = c.real('x', 20, 100), c.real('y', 20, 100)
    p, q = (x, y), (x + c.real('d0', 1, 100), y)
    r = (q[0], y + c.real('d1', 1, 100)) if c.choice('bent', (True, False)) else (q[0] + c.real('d1', 1, 100), y)
    x0, y0, x1, y1 = b = box(c, 0, 300, 300)
    k = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    items = [ln(p, q), ('re', fitz.Rect(*b), 1), ln(q, r)]
    s, f = shapes_of([path(items, 's', COLORS[0], width=w, close=c.true(c.bool('close')))])
    strokes(c, s, [(p, q), (q, r)] + list(zip(k, k[1:] + k[:1])), None, VALUES[0])


def outline(c):
    """Width of the outline of a rectangle."""
    import fitz
    w = c.real('width', 0.1, 12)
    s, f = shapes_of([path([('re', fitz.Rect(*box(c, 0)), 1)], 's', COLORS[0], width=w)])
    for r in s:
        c.check(c.near(r['width'], w), 'outline of a rectangle is written with another width')


def several(c):
    """Several paths, touching or not, and a curve apart from them."""
    import fitz
    out, edges, boxes = [], [], []
    w = c.real('width', 0.1, 6)
    x0, y0, x1, y1 = b = box(c, 0)
    out.append(path([('re', fitz.Rect(*b), 1)], 'f', fill=COLORS[0]))
    u, v, d = c.real('lx', 20, 380), c.real('ly', 20, 180), c.real('ld', 1, 100)
    out.append(path([ln((u, v), (u + d, v))], 's', COLORS[1], width=w))
    if c.curve:
        # a curve somewhere, at least 0.5 pt away from the boxes of the others
        a, e = c.real('cx', 30, 500), c.real('cy', 30, 400)
        far = lambda p, q, r, s: c.either(a > r + 0.5, a + 40 < p - 0.5, e > s + 0.5, e + 40 < q - 0.5)
        c.assume(c.both(far(x0, y0, x1, y1), far(u - w, v - w, u + d + w, v + w)))
        P = fitz.Point
        out.insert(1, path([('c', P(a, e), P(a + 40, e), P(a + 40, e + 40), P(a, e + 40)), ln((a, e + 40), (a, e))], 's',
                           COLORS[2], width=0.1, close=True))
    from pdf2docx.image.ImagesExtractor import ImagesExtractor
    with L.patched((ImagesExtractor, 'extract_vector_graphics', staticmethod(lambda *a, **k: []))):
        s, f = shapes_of(out)
    s = [r for r in s if r['color'] == VALUES[1]]
    strokes(c, s, [((u, v), (u + d, v))], w, VALUES[1])
    f = [r for r in f if r['color'] == VALUES[0]]
    fills(c, f, [b], VALUES[0])


def thin(c):
    """A filled rectangle on a page with text: a stroke if thinner than a border can be."""
    import fitz
    x, y = c.real('x', 40, 100), c.real('y', 240, 300)
    t = c.real('t', 0.1, 12)
    d = c.real('d', 13, 200)
    vert = c.choice('dir', 'hv') == 'v'
    b = (x, y, x + t, y + d) if vert else (x, y, x + d, y + t)
    p = L.FakePage(0, 600, 800, drawings=lambda: [path([('re', fitz.Rect(*b), 1)], 'f', fill=COLORS[1])],
                   content=lambda: [L.block([L.tline('text', 100, 100, 160, 112)])])
    got = L.cleaned(p).store()['shapes']
    c.check(len(got) == 1, f'{len(got)} shapes for one rectangle')
    r = got[0]
    c.check(r['color'] == VALUES[1], 'shape of another colour')
    c.check(c.both(*[c.near(u, v, 0.051) for u, v in zip(tuple(r['bbox']), b)]), 'the shape moves')
    is_stroke = 'start' in r
    c.check(c.implies(t > 6, not is_stroke), 'a thick rectangle becomes a line')
    c.check(c.implies(t < 6, is_stroke), 'a thin rectangle does not become a line')
    if is_stroke:
        m = (x + t / 2, y, x + t / 2, y + d) if vert else (x, y + t / 2, x + d, y + t / 2)
        got = (*r['start'], *r['end'])
        c.check(c.both(*[c.near(u, v, 0.051) for u, v in zip(got, m)]), 'not the centre line of the rectangle')
        c.check(c.near(r['width'], t, 0.051), 'line of another thickness')
    c.cover((is_stroke, vert))
    c.observe([list(r['bbox']), is_stroke])


HARNESSES = [
    Harness('lines', lines, 'two separate lines of one path (thorough: three), every direction', quick=dict(n=2), thorough=dict(n=3)),
    Harness('chain', chain, 'a line drawn in two pieces (thorough: three)', quick=dict(n=2), thorough=dict(n=3)),
    Harness('polygon', polygon, 'a rectangle drawn as lines, any first corner and turn', quick=dict(n=1),
            covers=[(k, b) for k in ('s', 'f', 'fs') for b in (True, False)]),
    Harness('polygons', polygon, 'two rectangles drawn as lines in one path', quick=dict(n=2), thorough=dict(n=3)),
    Harness('quad', quads, 'a rectangle drawn as lines that PyMuPDF lists as quad', quick=dict(n=1, lines=False), covers=['s', 'f', 'fs'],
            thorough=dict(n=2, lines=False)),
    Harness('quad_line', quads, 'a quad before or after a line', quick=dict(n=1, lines=True), covers=['s']),
    Harness('flat', flat, 'filled areas of no height or width beside a filled rectangle'),
    Harness('rects', rects, 'two rectangles of one path (thorough: three)', quick=dict(n=2, lines=False), thorough=dict(n=3, lines=False),
            covers=['s', 'f', 'fs']),
    Harness('mixed', rects, 'a rectangle between two lines', quick=dict(n=1, lines=True)),
    Harness('between', between, 'a rectangle between two lines that meet'),
    Harness('outline', outline, 'width of a stroked rectangle'),
    Harness('several', several, 'a filled rectangle and a line anywhere', quick=dict(curve=False)),
    Harness('curve', several, 'the same with a curve apart from both', quick=dict(curve=True)),
    Harness('thin', thin, 'a filled rectangle of thickness 0.1 to 12', covers=[(True, True), (True, False), (False, True), (False, False)]),
]
