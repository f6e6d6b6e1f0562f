"""C26: vector graphics are rendered to pictures that cover them."""
from symx.harness import Harness
from checks import lib as L
from checks import pixels as P
from checks.c27 import STREAMS

NOTE = ('Pages with curves: outlines found by OpenCV anywhere on the page, any image and table on the page, page sizes from 6 pt, each rotation.')
ASSUMPTIONS = ['what OpenCV finds are the boxes of the drawings that are not painted over completely (image processing of OpenCV is outside of the checks)',
               'a page with any curve is rendered; outlines are of whole points']
ANGLES = (0, 90, 180, 270)
INV = {0: 0, 90: 270, 180: 180, 270: 90}


def curve(x=100, y=300):
    """A curved drawing as PyMuPDF lists it."""
    import fitz
    p = [fitz.Point(*q) for q in ((x, y), (x, y + 40), (x + 40, y + 40), (x + 60, y))]
    return {'type': 's', 'color': (0, 0, 0), 'fill': None, 'width': 1.0, 'closePath': False, 'even_odd': None,
            'rect': fitz.Rect(x, y, x + 60, y + 40), 'items': [('c', *p)], 'opacity': 1.0}


def meet(c, a, b, gap=0):
    return c.both(a[0] < b[2] + gap, b[0] < a[2] + gap, a[1] < b[3] + gap, b[1] < a[3] + gap)


def covers(c, a, b, tol=0.06):
    return c.both(a[0] <= b[0] + tol, a[1] <= b[1] + tol, a[2] >= b[2] - tol, a[3] >= b[3] - tol)


def run(c, blobs, angle=0, size=(600, 800), images=(), drawings=lambda: [], streams=None, other=lambda: []):
    """Render the page (un-rotated size); blobs: displayed boxes of curves; other(): of anything else that is drawn.
    The pictures in displayed coordinates."""
    w, h = size
    W, H = (w, h) if angle in (0, 180) else (h, w)
    page = P.Page(width=W, height=H, unrotated=(W, H), angle=angle, size=size, images=[(10 + k, 0, b) for k, b in enumerate(images)],
                  content=lambda: [L.block([L.line(L.span('abc', 20, 20, 80, 32), dir=L.READS_RIGHT[angle])])][:1 if w > 100 else 0]
                  + [L.image(b, b'raw%d' % k) for k, b in enumerate(images)],
                  drawings=lambda: [curve(min(100, w // 2 - 3), min(300, h // 2 - 3))] + drawings())
    import fitz
    doc = P.Doc([page], {10 + k: P.Pix.new(fitz.csRGB, 2, 2, [(k, k, k)] * 4, 0) for k in range(len(images))}, streams)

    def drawn(view):
        out = list(blobs) + list(other())
        if view is None or view['text']:
            out.append((20, 20, 80, 32))
        return out
    with P.vision(c, page, drawn):
        got = L.loaded(page)
    pics, raws = [], []
    for b in got.layout.blocks:
        for ln in b.lines:
            for s in ln.spans:
                if hasattr(s, 'image'):
                    (pics if s.image.pix.view else raws).append((tuple(s.bbox), s.image.pix))
    return got, pics, raws


def check_pictures(c, blobs, pics):
    for k, b in enumerate(blobs):
        hit = [c.both(covers(c, q, b)) for q, p in pics]
        c.check(c.either(False, *hit), 'a drawing is not covered by a picture')
    for q, p in pics:
        v = p.view
        c.check(c.both(*[c.near(s, t, 0.06) for s, t in zip(v['box'], q)]), 'the picture shows another part of the page')
        c.check(not v['text'], 'text is shown in the picture')
        c.check(v['zoom'] >= 1, 'resolution')
        # nothing but the drawings: each edge is the edge of one
        for i in range(4):
            c.check(c.either(False, *[c.near(q[i], b[i], 0.06) for b in blobs]), 'the picture exceeds the drawings')


def blob(c, k, W=600, H=800, w=None, h=None):
    x, y = c.int(f'x{k}', 0, W), c.int(f'y{k}', 0, H)
    w = c.int(f'w{k}', 1, W) if w is None else w
    h = c.int(f'h{k}', 1, H) if h is None else h
    c.assume(c.both(x + w <= W, y + h <= H))
    return x, y, x + w, y + h


def anywhere(c):
    """Drawings anywhere; separate ones get separate pictures."""
    angle = c.choice('angle', ANGLES) if c.turn else 0
    W, H = (800, 600) if angle in (90, 270) else (600, 800)
    sizes = c.params.get('sizes') or [None] * c.n
    blobs = [blob(c, k, W, H, *(sizes[k] or ())) for k in range(c.n)]
    got, pics, _ = run(c, blobs, angle)
    c.check(c.both(c.near(got.width, W), c.near(got.height, H)), 'size of the page')
    check_pictures(c, blobs, pics)
    if c.n == 2:
        a, b = blobs
        if c.true(meet(c, a, b)):
            c.check(len(pics) == 1, 'overlapping drawings are split')
            c.cover('one')
        elif c.true(c.no(meet(c, a, b, 1))):
            c.check(len(pics) == 2, 'separate drawings are merged to a single picture')
            c.cover('two')
    else:
        apart = c.both(*[c.no(meet(c, a, b, 1)) for i, a in enumerate(blobs) for b in blobs[i + 1:]])
        if c.true(apart):
            c.check(len(pics) == c.n, 'separate drawings are merged to a single picture')
            c.cover('apart')
        else:
            c.check(len(pics) >= 1, 'drawings are lost')
    c.observe([len(pics), [list(q) for q, _ in pics]])


def beside(c):
    """Images and tables are not rendered again."""
    angle = c.choice('angle', ANGLES) if c.turn else 0
    w, h = 600, 800
    W, H = (h, w) if angle in (90, 270) else (w, h)
    mine = (300, 500, 340, 530)             # as displayed
    images, drawings, inks = [], lambda: [], []
    if c.what == 'image':
        x, y = c.int('x', 0, w), c.int('y', 0, h)
        iw, ih = c.int('w', 6, 100), c.int('h', 6, 100)
        c.assume(c.both(x + iw <= w, y + ih <= h))
        images = [(x, y, x + iw, y + ih)]
        inks = [L.rotate_box(angle, w, h, images[0])]
        c.assume(c.no(meet(c, inks[0], mine, 8)))
    else:
        tx, ty = c.int('x', 1, w - 101), c.int('y', 1, h - 61)
        xs, ys = (tx, tx + 50, tx + 100), (ty, ty + 30, ty + 60)
        drawings = lambda: L.dtable(xs, ys)
        lines = [(tx, y, tx + 100, y) for y in ys] + [(x, ty, x, ty + 60) for x in xs]
        inks = [tuple(v + d for v, d in zip(L.rotate_box(angle, w, h, b), (-1, -1, 1, 1))) for b in lines]
        c.assume(c.no(meet(c, L.rotate_box(angle, w, h, (tx, ty, tx + 100, ty + 60)), mine, 20)))
        cv = (100, 300, 160, 340)
        c.assume(c.no(meet(c, (tx, ty, tx + 100, ty + 60), cv, 5)))
    got, pics, raws = run(c, [mine], angle, images=images, drawings=drawings, other=lambda: inks)
    check_pictures(c, [mine], pics)
    c.check(len(pics) == 1, 'an image or table is rendered again')
    c.check(len(raws) == len(images), 'images of the page')
    for q, _ in raws:
        c.check(c.both(*[c.near(s, t, 0.06) for s, t in zip(q, inks[0])]), 'place of the image')
    if c.what == 'table':
        bars = [tuple(s.bbox) for s in got.layout.shapes]
        c.check(len(bars) == 6, f'{len(bars)} lines of the table')
        for b in lines:
            r = L.rotate_box(angle, w, h, b)
            c.check(c.either(False, *[covers(c, q, r) for q in bars]), 'a line of the table is lost')
    c.observe([len(pics), len(raws)])


def small(c):
    """Pages of any size."""
    w, h = c.choice('w', c.widths), c.choice('h', c.heights)
    got, pics, _ = run(c, [(1, 1, 4, 5)], 0, (w, h))
    check_pictures(c, [(1, 1, 4, 5)], pics)
    c.check(len(pics) == 1, 'drawings on a small page')
    c.observe(len(pics))


def texts(c):
    """Text of the page is not shown in pictures."""
    s = {k: s for k, s in enumerate(c.choice('stream', STREAMS), 1)}
    b = blob(c, 0, w=40, h=30)
    c.assume(c.no(meet(c, b, (20, 20, 80, 32), 5)))
    got, pics, _ = run(c, [b], streams=s)
    check_pictures(c, [b], pics)
    c.check(len(pics) == 1, f'{len(pics)} pictures')
    c.observe(len(pics))


HARNESSES = [
    Harness('one', anywhere, 'a drawing of any box on a page of any rotation', quick=dict(n=1, turn=True), covers=['apart']),
    Harness('two', anywhere, 'two drawings of any boxes', quick=dict(n=2, turn=False), covers=['one', 'two']),
    Harness('three', anywhere, 'three drawings at any place', quick=dict(n=3, turn=False, sizes=[[40, 30], [60, 50], [20, 90]]), covers=['apart'],
            thorough=dict(n=3, turn=True)),
    Harness('image', beside, 'an image of any box beside a drawing, on a page of any rotation', quick=dict(what='image', turn=True)),
    Harness('table', beside, 'a ruled table anywhere beside a drawing, on a page of any rotation', quick=dict(what='table', turn=True)),
    Harness('small', small, 'small pages', quick=dict(widths=[8, 30, 51, 120], heights=[8, 49, 200])),
    Harness('texts', texts, 'pages of different texts'),
]
