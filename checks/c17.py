"""C17: page size and margins."""
from symx.harness import Harness
from checks import docxread as D
from checks import lib as L

NOTE = 'Content is one text line, optionally with a filled area, on each page; text layout itself is not judged here.'
ASSUMPTIONS = ['coordinates on a 0.1 pt grid']


def margins(c, s, W, H, box, tag=''):
    """The section of one page against its size and content box (None: empty page)."""
    tol = 0.051
    c.check(c.both(c.near(s.width, W, tol), c.near(s.height, H, tol)), f'{tag}docx page size differs from the pdf page')
    for k in ('left', 'right', 'top', 'bottom'):
        m = getattr(s, k)
        c.check(c.both(m >= 0, m <= 72), f'{tag}{k} margin is negative or more than one inch')
    if box is None:
        c.check(c.both(*[getattr(s, k) == 72 for k in ('left', 'right', 'top', 'bottom')]),
                f'{tag}an empty page must get margins of one inch')
        return
    x0, y0, x1, y1 = box
    tol = 0.11
    c.check(s.left <= x0 + tol, f'{tag}left margin cuts into the content')
    c.check(s.top <= y0 + tol, f'{tag}top margin cuts into the content')
    c.check(s.right <= W - x1 + tol, f'{tag}right margin cuts into the content')
    c.check(s.bottom <= H - y1 + tol, f'{tag}bottom margin cuts into the content')
    c.check(s.left >= c.min(x0, 72) - tol, f'{tag}left margin is less than the distance of the content')


def one_page(c):
    """A page of any size with one text line and, optionally, a shaded area anywhere on it."""
    W, H, x0, y0, w, h = 600, 800, 100, 100, 300, 12
    u0, v0, uw, vh = 120, 300, 200, 50
    if 'x' in c.axis:
        W, x0, w = c.real('W', 60, 2000), c.real('x0', 0, 2000), c.real('w', 5, 2000)
        c.assume(x0 + w <= W)
        if c.fill:
            u0, uw = c.real('u0', 0, 2000), c.real('uw', 5, 2000)
            c.assume(u0 + uw <= W)
    if 'y' in c.axis:
        H, y0, h = c.real('H', 60, 2000), c.real('y0', 0, 2000), c.real('h', 5, 100)
        c.assume(y0 + h <= H)
        if c.fill:
            v0, vh = c.real('v0', 0, 2000), c.real('vh', 5, 2000)
            c.assume(v0 + vh <= H)
    box = (x0, y0, x0 + w, y0 + h)
    draw = []
    if c.fill:
        draw = [L.dfill(u0, v0, u0 + uw, v0 + vh)]
    p = L.FakePage(0, W, H, content=lambda: [L.block(L.tline('a', *box))], drawings=lambda: draw)
    doc = L.docx_of([L.parse(p)])
    if c.fill:
        box = (c.min(box[0], u0), c.min(box[1], v0), c.max(box[2], u0 + uw), c.max(box[3], v0 + vh))
    secs = D.sections(doc)
    c.check(len(secs) == 1, 'one page must make one section')
    margins(c, secs[0], W, H, box)
    c.observe([secs[0].width, secs[0].height, secs[0].left, secs[0].right, secs[0].top, secs[0].bottom])


def off_page(c):
    """A line and a filled area reaching over any edge of the page."""
    W, H = 600, 800
    x, y, w, h = 100, 100, 200, 30
    if c.axis == 'x':
        x, w = c.real('x', -200, 700), c.real('w', 10, 900)
        c.assume(c.both(x + w >= 20, x <= W - 20))
    else:
        y, h = c.real('y', -200, 900), c.real('h', 10, 1000)
        c.assume(c.both(y + h >= 20, y <= H - 20))
    box = (x, y, x + w, y + h)
    other = (300, 400, 340, 412)
    if c.what == 'fill':
        p = L.FakePage(0, W, H, content=lambda: [L.block(L.tline('a', *other))], drawings=lambda: [L.dfill(*box)])
    else:
        p = L.FakePage(0, W, H, content=lambda: [L.block(L.tline('a', *box))], drawings=lambda: [L.dfill(*other)])
    doc = L.docx_of([L.parse(p)])
    secs = D.sections(doc)
    c.check(len(secs) == 1, 'one page must make one section')
    s = secs[0]
    tol = 0.11
    c.check(c.both(c.near(s.width, W, tol), c.near(s.height, H, tol)), 'docx page size differs from the pdf page')
    for k in ('left', 'right', 'top', 'bottom'):
        c.check(c.both(getattr(s, k) >= 0, getattr(s, k) <= 72), f'{k} margin is negative or more than one inch')
    c.check(s.left <= c.max(c.min(x, 300), 0) + tol, 'left margin cuts into the content')
    c.check(s.top <= c.max(c.min(y, 400), 0) + tol, 'top margin cuts into the content')
    c.check(s.right <= c.max(W - c.max(x + w, 340), 0) + tol, 'right margin cuts into the content')
    c.check(s.bottom <= c.max(H - c.max(y + h, 412), 0) + tol, 'bottom margin cuts into the content')
    c.observe([s.left, s.right, s.top, s.bottom])


def rotated(c):
    """Page size and margins follow the rotated page."""
    a = c.choice('angle', (0, 90, 180, 270))
    w, h = c.real('w', 100, 1000), 800
    x0, bw = c.real('x0', 10, 900), 80
    c.assume(x0 + bw <= w - 5)
    box = (x0, 200, x0 + bw, 215)
    p = L.rotated_page(a, w, h, content=lambda: [L.block(L.tline('a', *box, dir=L.READS_RIGHT[a]))])
    W, H = (w, h) if a in (0, 180) else (h, w)
    doc = L.docx_of([L.parse(p)])
    margins(c, D.sections(doc)[0], W, H, L.rotate_box(a, w, h, box), f'rotation {a}: ')
    c.cover(a)


def document(c):
    """Several pages, each of its own size, empty or with a text or a table: one section per page, in order, the
    first in the section every document has."""
    n = c.n
    fakes, want = [], []
    for i in range(n):
        kind = c.choice(f'kind{i}', c.kinds)
        W = c.real(f'W{i}', 400, 900)
        H = c.real(f'H{i}', 400, 900)
        x0 = c.real(f'x{i}', 1, 150)
        if kind == 'empty':
            content, draw, box = lambda: [], lambda: [], None
        elif kind == 'text':
            box = (x0, 100, x0 + 230, 112)
            content = lambda i=i, box=box: [L.block(L.tline(f'p{i}.', *box))]
            draw = lambda: []
        else:
            xs, ys = (x0, x0 + 100, x0 + 240), (80, 110, 140)
            box = (x0 - 0.5, 79.5, x0 + 240.5, 140.5)
            content = lambda i=i, x0=x0: [L.block(L.tline(f'p{i}.', x0 + 5, 90, x0 + 50, 102))]
            draw = lambda xs=xs, ys=ys: L.dtable(xs, ys)
        fakes.append(L.FakePage(i, W, H, content=content, drawings=draw))
        want.append((W, H, box, kind))
        c.cover(kind)
    doc = L.convert(fakes)
    pages = D.pages(doc)
    c.check(len(pages) == n, f'{n} pages make {len(pages)} sections')
    for i, ((s, items), (W, H, box, kind)) in enumerate(zip(pages, want)):
        margins(c, s, W, H, box, f'page {i}: ')
        t = ''.join(D.text(items).split())
        c.check(t == ('' if kind == 'empty' else f'p{i}.'), f'section {i} has the text {t!r}')
        c.check(i == 0 or s.type in (None, 'nextPage'), f'section {i} does not start a new page')


HARNESSES = [
    Harness('one_page_x', one_page, 'page width 60..2000 pt, one line at any x of it', quick=dict(axis='x', fill=False)),
    Harness('one_page_y', one_page, 'page height 60..2000 pt, one line at any y of it', quick=dict(axis='y', fill=False)),
    Harness('shape_x', one_page, 'page width 60..2000 pt, a line and a filled area at any x of it',
            quick=dict(axis='x', fill=True)),
    Harness('shape_y', one_page, 'page height 60..2000 pt, a line and a filled area at any y of it',
            quick=dict(axis='y', fill=True)),
    Harness('one_page', one_page, 'page 60..2000 pt wide and high, one line anywhere on it',
            quick=False, thorough=dict(axis='xy', fill=False)),
    Harness('off_fill_x', off_page, 'a filled area reaching over the left or right edge of the page', quick=dict(axis='x', what='fill')),
    Harness('off_fill_y', off_page, 'a filled area reaching over the top or bottom edge of the page', quick=dict(axis='y', what='fill')),
    Harness('off_text_x', off_page, 'a line reaching over the left or right edge of the page', quick=dict(axis='x', what='text')),
    Harness('off_text_y', off_page, 'a line reaching over the top or bottom edge of the page', quick=dict(axis='y', what='text')),
    Harness('rotated', rotated, 'pages rotated by 0, 90, 180, 270 degrees, 100..1000 pt wide', covers=[0, 90, 180, 270]),
    Harness('document', document, 'up to n pages of any kind (empty, text, table) and size 400..900 pt',
            quick=dict(n=2, kinds=('empty', 'text', 'table')), thorough=dict(n=3, kinds=('empty', 'text', 'table')),
            covers=['empty', 'text', 'table']),
]
