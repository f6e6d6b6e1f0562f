"""C20: rotated pages are mapped into the page with the text direction kept."""
from symx.harness import Harness
from checks import lib as L
from checks import docxread as D
from checks import pixels as P

NOTE = 'Pages of any size rotated by 0, 90, 180, 270 degrees, with texts, an image and shapes at any place; one page or two different ones in turn.'
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'text, image blocks and drawings are listed in un-rotated coordinates, links and recovered images in page coordinates '
               '(as the installed PyMuPDF does)']
INV = {0: 0, 90: 270, 180: 180, 270: 90}
UP = {0: (0.0, -1.0), 90: (-1.0, 0.0), 180: (0.0, 1.0), 270: (1.0, 0.0)}
DOWN = {a: (-x, -y) for a, (x, y) in UP.items()}
LEFT = {a: (-x, -y) for a, (x, y) in L.READS_RIGHT.items()}
ANGLES = (0, 90, 180, 270)


def box(c, name, x0, y0, x1, y1, lo=2):
    """A box somewhere within the area."""
    x, y = c.real(name + 'x', x0, 2000), c.real(name + 'y', y0, 2000)
    w, h = c.real(name + 'w', lo, 2000), c.real(name + 'h', lo, 2000)
    c.assume(c.both(x + w <= x1, y + h <= y1))
    return x, y, x + w, y + h


def spans_of(page):
    out = []
    for b in page.store()['blocks']:
        for ln in b.get('lines', []):
            for s in ln['spans']:
                out.append((ln, s))
        if 'image' in b:
            out.append((None, b))
    return out


def near(c, a, b, tol=0.051):
    return c.both(*[c.near(u, v, tol) for u, v in zip(tuple(a), tuple(b))])


def check_page(c, tag, angle, w, h, what):
    """One page with the drawn items; its cleaned content is compared with the rotated boxes."""
    W, H = (w, h) if angle in (0, 180) else (h, w)
    blocks, want = [], []
    for k, kind in enumerate(what):
        # anywhere on the un-rotated page
        b = box(c, f'{tag}{kind}{k}', 0, 0, w, h)
        if kind == 'image':
            blocks.append(L.image(b))
        else:
            d = {'right': L.READS_RIGHT, 'up': UP}[kind][angle]
            blocks.append(L.block([L.line(dict(L.span(kind[0], *b)), dir=d)]))
        want.append((kind, L.rotate_box(angle, w, h, b), b))
    link, bar, area = (30, 50, 90, 60), (40, 260, 90, 260), (40, 280, 90, 295)     # as displayed
    back = lambda q: L.rotate_box(INV[angle], W, H, q)
    fitz = __import__('fitz')
    page = P.Page(width=W, height=H, angle=angle, size=(w, h), unrotated=(W, H), content=lambda: blocks,
                  drawings=lambda: [L.dline(*back(bar), 1), L.dfill(*back(area))],
                  links=lambda: [{'kind': 2, 'from': fitz.Rect(*link), 'uri': 'http://x'}],
                  images=[(10 + k, 0, b) for k, (kind, _, b) in enumerate(want) if kind == 'image'])
    P.Doc([page], {10 + k: P.Pix.new(fitz.csRGB, 1, 1, [(k, k, k)]) for k in range(len(want))})
    with P.pixmaps():
        got = L.loaded(page)
    sp = spans_of(got)
    c.check(len(sp) == len(want), f'{len(sp)} text and image boxes for {len(want)}')
    st = got.store()
    c.check(c.both(c.near(st['width'], W), c.near(st['height'], H)), 'size of the rotated page')
    for kind, r, b in want:
        is_img = kind == 'image'
        found = [(ln, s) for ln, s in sp if ('image' in s) == is_img]
        hit = [near(c, s['bbox'], r) for ln, s in found]
        c.check(c.either(False, *hit), f'{kind} box is not mapped to its place on the page')
        c.check(c.both(r[0] >= 0, r[1] >= 0, r[2] <= W, r[3] <= H), 'harness: box off the page')
        for (ln, s), ok in zip(found, hit):
            bb = s['bbox']
            if not is_img:
                c.check(near(c, s['chars'][0]['bbox'], bb), 'character outside of its span')
    for blk in got.layout.blocks:
        if blk.is_inline_image_block():
            continue
        for ln in blk.lines:
            kind = {'r': 'right', 'u': 'up'}[ln.text]
            c.check(ln.is_horizontal_text == (kind == 'right') and ln.is_vertical_text == (kind == 'up'),
                    f'text reading {kind} on the page is not recognised')
            c.check(near(c, tuple(ln.bbox), [r for k, r, _ in want if k == kind][0]), f'{kind} line is not mapped to its place')
    # areas and distances
    texts = [s for ln, s in sp]
    shapes = st['shapes']
    bs = sorted([tuple(s['bbox']) for s in shapes], key=lambda b: b[1]) if not c.symbolic else [tuple(s['bbox']) for s in shapes]
    for b in ((39.5, 259.5, 90.5, 260.5), (40, 280, 90, 295), link):
        c.check(c.either(False, *[near(c, q, b) for q in bs]), 'a shape is moved')
    c.check(len(bs) == 3, f'{len(bs)} shapes')
    c.observe([list(s['bbox']) for s in texts])


def one(c):
    angle = c.choice('angle', ANGLES)
    w, h = c.real('w', 300, 2000), c.real('h', 320, 2000)
    check_page(c, 'p', angle, w, h, c.what)
    c.cover(angle)


def two(c):
    """The rotation of one page does not affect the next one."""
    a, b = c.choice('angle1', ANGLES), c.choice('angle2', ANGLES)
    c.assume(a != b)
    w, h = c.real('w', 300, 2000), c.real('h', 320, 2000)
    check_page(c, 'p', a, w, h, ('right',))
    check_page(c, 'q', b, w, h, c.what)


def dropped(c):
    """Text that reads neither to the right nor up is not supported; it must not disturb the other text."""
    angle = c.choice('angle', ANGLES)
    d = c.choice('dir', (LEFT, DOWN))[angle]
    w, h = 600, 800
    b1, b2 = box(c, 'a', 20, 20, 250, 100), box(c, 'b', 20, 120, 250, 200)
    page = L.rotated_page(angle, w, h, content=lambda: [L.block([L.line(L.span('a', *b1), dir=L.READS_RIGHT[angle])]),
                                                        L.block([L.line(L.span('b', *b2), dir=d)])])
    got = [s for ln, s in spans_of(L.cleaned(page)) if s['chars'][0]['c'] == 'a']
    c.check(len(got) == 1, 'text beside unsupported text is lost')
    c.check(near(c, got[0]['bbox'], L.rotate_box(angle, w, h, b1)), 'text box is not mapped to its place on the page')
    c.observe(list(got[0]['bbox']))


def docx(c):
    """Text reading to the right or up on the rotated page in the docx: page size, text and its indent."""
    angle = c.choice('angle', ANGLES)
    w, h = c.real('w', 300, 2000), c.real('h', 320, 2000)
    W, H = (w, h) if angle in (0, 180) else (h, w)
    # page coordinates of two lines; the reading box must be mapped back
    x, y = c.real('x', 20, 60), c.real('y', 20, 60)
    inv = {0: 0, 90: 270, 180: 180, 270: 90}[angle]
    rows = [('first', (x, y, x + 120, y + 12)), ('second', (x, y + 60, x + 120, y + 72))]
    if c.choice('listed', (0, 1)):
        rows.reverse()

    def content():
        out = []
        for t, b in rows:
            u = L.rotate_box(inv, W, H, b)
            s = L.span(t, *u)
            n = len(t)
            for i, ch in enumerate(s['chars']):
                q = (b[0] + 120 / n * i, b[1], b[0] + 120 / n * (i + 1), b[3])
                ch['bbox'] = L.rotate_box(inv, W, H, q)
            out.append(L.block([L.line(s, dir=L.READS_RIGHT[angle])]))
        return out
    page = L.rotated_page(angle, w, h, content=content)
    doc = L.docx_of([L.parse(page)])
    text = [t for p in D.all_paragraphs(D.body(doc)) for t in D.text([p]).split()]
    c.check(text == ['first', 'second'], f'text of the rotated page is written as {text}')
    s = doc.sections[0]
    c.check(c.both(c.near(s.page_width, W * 12700, 12700), c.near(s.page_height, H * 12700, 12700)), 'size of the rotated page')
    c.observe(text)


A = list(ANGLES)
HARNESSES = [
    Harness('text', one, 'two texts reading to the right and up', quick=dict(what=('right', 'up')), covers=A),
    Harness('image', one, 'a text and an image', quick=dict(what=('right', 'image')), covers=A),
    Harness('all', one, 'texts and images', quick=dict(what=('right', 'image', 'up')), covers=A),
    Harness('turn', two, 'two pages of different rotation in turn', quick=dict(what=('right', 'image'))),
    Harness('dropped', dropped, 'text of an unsupported direction beside other text'),
    Harness('docx', docx, 'two lines of a rotated page in the docx', covers=[]),
]
