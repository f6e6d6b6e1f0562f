"""C22: every image is placed once, at its place, with its bytes."""
import struct
import zlib
from fractions import Fraction

from symx.harness import Harness
from checks import docxread as D
from checks import lib as L

NOTE = 'Up to three image locations of any box with up to four lines of text around them, in and beside tables; every assignment of contents to locations.'
ASSUMPTIONS = ['images of at least 6 pt in both directions, inside the page', 'pixels are recovered by MuPDF (C27)',
               'the recovered picture of an image is reported at one of its locations, to 0.01 pt']


def png(k, w=10, h=10):
    """A valid picture, different for each k."""
    def chunk(t, d):
        return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))
    raw = b''.join(b'\0' + bytes([k, 2 * k, 3 * k]) * w for _ in range(h))
    return b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, 8, 2, 0, 0, 0)) + chunk(b'IDAT', zlib.compress(raw)) + chunk(b'IEND', b'')


def restored(images):
    """Patch: (box, bytes) are the pictures recovered from the document."""
    from pdf2docx.image.ImagesExtractor import ImagesExtractor
    return L.patched((ImagesExtractor, 'extract_images',
                      staticmethod(lambda *a, **k: [L.image(tuple(b), d) for b, d in images])),
                     (ImagesExtractor, 'extract_vector_graphics', staticmethod(lambda *a, **k: [])))


def pictures(doc):
    """[(page, picture, bytes)] of the document."""
    out = []
    for n, (_, items) in enumerate(D.pages(doc)):
        for r in D.all_runs(items):
            for p in r.pics:
                out.append((n, p, doc.part.related_parts[p.rid].blob))
    return out


def common(c, a0, a1, b0, b1):
    return c.min(a1, b1) - c.max(a0, b0)


def same(c, a, b, tol):
    return c.both(*[c.near(x, y, tol) for x, y in zip(a, b)])


def check_pictures(c, doc, images, others, page=0, never=()):
    """Each (box, bytes) is written once; floating iff it overlaps another image or one of the other boxes."""
    pics = [(p, b) for n, p, b in pictures(doc) if n == page]
    c.observe([len(pics), [p.inline for p, _ in pics]])
    c.check(len(pics) == len(images), f'{len(images)} image(s) on the page, {len(pics)} written')
    c.check(sorted(b for _, b in pics) == sorted(d for _, d in images), 'another picture is written')
    todo = list(pics)
    for i, (box, data) in enumerate(images):
        cand = [p for p in todo if p[1] == data]
        sub = [o for o in others] + [b for k, (b, _) in enumerate(images) if k != i]
        over = lambda t: c.either(*[c.both(common(c, box[0], box[2], o[0], o[2]) > t,
                                           common(c, box[1], box[3], o[1], o[3]) > t) for o in sub])
        if len(cand) > 1:       # the same picture at several places
            w, h = box[2] - box[0], box[3] - box[1]
            hit = [p for p in cand if c.true(c.both(c.near(p[0].cx, w, 0.16), c.near(p[0].cy, h, 0.16), p[0].inline or c.both(
                c.near(p[0].x, box[0], 0.06), c.near(p[0].y, box[1], 0.06))))]
            c.check(len(hit) >= 1, f'image {i} is not written at its place with its size')
            cand = hit
        p = cand[0]
        todo.remove(p)
        p = p[0]
        c.check(c.near(p.cx, box[2] - box[0], 0.16), f'image {i} is written with another width')
        c.check(c.near(p.cy, box[3] - box[1], 0.16), f'image {i} is written with another height')
        c.check(all(c.true(c.both(c.near(a, p.cx, 0.01), c.near(b, p.cy, 0.01))) for a, b in p.shape), f'image {i}: extents differ')
        if p.inline:
            c.check(c.no(over(5.25)), f'image {i} overlaps other content but is written inline')
            c.cover('inline')
        else:
            c.check(over(4.75), f'image {i} does not overlap other content but is floating')
            c.check(c.both(c.near(p.x, box[0], 0.06), c.near(p.y, box[1], 0.06)),
                    f'floating image {i} is written at another place')
            c.check(p.relh == 'page' and p.relv == 'page', 'position is not relative to the page')
            c.cover('float')


def box(c, k, x0, x1, y0, y1, wide=60, size=None):
    x, y = c.real(f'x{k}', x0, x1), c.real(f'y{k}', y0, y1)
    if size:
        return x, y, x + size[0], y + size[1]
    return x, y, x + c.real(f'w{k}', 6, wide), y + c.real(f'h{k}', 6, wide)


def content(images, texts):
    return [L.block([L.tline(t, *b)]) for t, b in texts] + [L.image(b, b'raw-%d' % n) for n, (b, _) in enumerate(images)]


TEXTS = [('abc', (100, 100, 160, 112)), ('def', (200, 100, 260, 112)), ('ghi', (100, 140, 160, 152)), ('jkl', (100, 200, 160, 212))]


def place(c):
    """Images of any box among lines of text."""
    texts = TEXTS[:c.lines]
    images = [(box(c, k, *(c.size[0] if k and c.size else c.area), size=c.size[1] if k and c.size else None), png(k + 1)) for k in range(c.n)]
    f = L.FakePage(0, 600, 800, content=lambda: content(images, texts))
    with restored(images):
        doc = L.docx_of([L.parse(f)])
    check_pictures(c, doc, images, [b for _, b in texts])
    got = ''.join(sorted(ch for ch in D.text(D.body(doc)) if not ch.isspace()))
    c.check(got == ''.join(t for t, _ in texts), f'text becomes {got!r}')


def pages(c):
    """Images of two pages stay on their page."""
    one = [((100, 100, 150, 150), png(1))]
    two = [(box(c, 0, 80, 120, 80, 120), png(2)), (box(c, 1, 100, 160, 100, 160, size=(30, 20)), png(3))]
    texts = [('abc', (100, 300, 160, 312))] if c.text else []
    a = L.FakePage(0, 600, 800, content=lambda: content(one, [('xyz', (300, 300, 360, 312))] if c.choice('first', (False, True)) else []))
    b = L.FakePage(1, 600, 800, content=lambda: content(two, texts))
    L.FakeDoc([a, b])
    pg = []
    for f, im in ((a, one), (b, two)):
        with restored(im):
            pg.append(L.parse(f))
    doc = L.docx_of(pg)
    c.check(len(D.pages(doc)) == 2, 'two pages are not two sections')
    check_pictures(c, doc, one, [], 0)
    check_pictures(c, doc, two, [b for _, b in texts], 1)


def table(c):
    """An image in or beside a cell of a ruled table."""
    images = [(box(c, 0, *c.area, wide=30), png(1))]
    texts = [('abc', (105, 105, 140, 117)), ('xyz', (100, 300, 160, 312))]
    f = L.FakePage(0, 600, 800, content=lambda: content(images, texts), drawings=lambda: L.dtable([100, 200, 300], [100, 150, 200]))
    with restored(images):
        page = L.parse(f)
        doc = L.docx_of([page])
    check_pictures(c, doc, images, [b for _, b in texts])
    b = images[0][0]
    inline = any(p.inline for _, p, _ in pictures(doc))
    ruled = [t for t in tables(D.body(doc)) if len(t.rows) == 2 and all(len(r.cells) == 2 for r in t.rows)]
    for item in ruled:
        for i, row in enumerate(item.rows):
            for j, cell in enumerate(row.cells):
                has = any(p.inline for r in D.all_runs(cell.content) for p in r.pics)
                x0, y0 = 100 + 100 * j, 100 + 50 * i
                inside = lambda t: c.both(b[0] >= x0 + t, b[2] <= x0 + 100 - t, b[1] >= y0 + t, b[3] <= y0 + 50 - t)
                if has:
                    c.check(c.both(b[0] < x0 + 100, b[2] > x0, b[1] < y0 + 50, b[3] > y0),
                            f'the image is written to cell {i},{j} it does not touch')
                    c.cover('cell')
                elif inline:
                    c.check(c.no(inside(1)), f'the image of cell {i},{j} is not written there')


def tables(items):
    for b in items:
        if b.kind == 't':
            yield b
            for r in b.rows:
                for cell in r.cells:
                    yield from tables(cell.content)


def recover(c):
    """Image blocks of the page get the recovered pictures: every location once."""
    spots = [(100, 100, 150, 140), (100, 200, 150, 240), (300, 100.5, 350.5, 140.5), (100, 100, 150, 140)]
    n = c.n
    use = [c.pick(f'content{i}', 0, min(i, 2)) for i in range(n)]    # content of each location
    c.assume(all(u <= max(use[:i] + [-1]) + 1 for i, u in enumerate(use)))
    where = [spots[i] if i < 3 else c.choice(f'spot{i}', (spots[3], (300, 200, 350, 240))) for i in range(n)]
    if n > 3 and where[3] == where[0] and use[3] != use[0]:      # different pictures at one place: each used once
        c.assume(use.count(use[0]) == 1 and use.count(use[3]) == 1)
        c.cover('stacked')
    raw = [L.image(b, b'raw-%d' % u) for b, u in zip(where, use)]
    found = []
    for u in sorted(set(use)):
        k = c.choice(f'at{u}', tuple(i for i in range(n) if use[i] == u))   # location reported for the picture
        e = c.real(f'e{u}', Fraction(-1, 100), Fraction(1, 100), None)
        found.append((tuple(x + e for x in where[k]), png(u + 1)))
    outside = c.choice('outside', (False, True))
    if outside:             # not among the blocks of the page
        found.insert(0, ((400, 300, 450, 340), png(9)))
    if c.order:
        found = found[::-1]
    text = [L.block([L.tline('abc', 100, 500, 160, 512)])]
    f = L.FakePage(0, 600, 800, content=lambda: text + [dict(d) for d in raw])
    with restored(found):
        page = L.loaded(f)
    got = []
    for b in page.layout.blocks:
        for ln in b.lines:
            for s in ln.spans:
                if hasattr(s, 'image'):
                    got.append((tuple(s.bbox), s.image))
    c.observe(len(got))
    want = [(b, png(u + 1)) for b, u in zip(where, use)] + ([((400, 300, 450, 340), png(9))] if outside else [])
    c.check(len(got) == len(want), f'{len(want)} image locations give {len(got)} images (contents {use}, places {where})')
    for b, d in want:
        hit = [g for g in got if c.true(same(c, g[0], b, 0.12)) and g[1] == d]
        c.check(len(hit) >= 1, f'no image with the recovered picture at {b} (contents {use})')
        got.remove(hit[0])


HARNESSES = [
    Harness('recover', recover, 'up to four image locations with up to three contents, recovered pictures reported at any of their places to 0.01 pt',
            quick=dict(n=3, order=False), thorough=dict(n=4, order=False)),
    Harness('recover_reverse', recover, 'the same, pictures listed in the opposite order', quick=dict(n=4, order=True), covers=['stacked']),
    Harness('place', place, 'an image of any box among lines of text', quick=dict(n=1, size=None, lines=3, area=(60, 280, 60, 220)),
            thorough=dict(n=1, size=None, lines=4, area=(60, 280, 60, 220)), covers=['inline', 'float']),
    Harness('place_two', place, 'two images of any box and a line of text', quick=dict(n=2, size=((130, 130, 90, 120), (30, 20)), lines=1, area=(90, 150, 90, 120)),
            thorough=dict(n=2, size=None, lines=2, area=(60, 280, 60, 220)), covers=['inline', 'float']),
    Harness('images_only', place, 'a page of two images', quick=dict(n=2, size=((60, 280, 60, 220), (40, 30)), lines=0, area=(60, 280, 60, 220)),
            thorough=dict(n=2, size=None, lines=0, area=(60, 280, 60, 220)),
            covers=['inline', 'float']),
    Harness('pages', pages, 'two pages with images', quick=dict(text=False), covers=['inline', 'float']),
    Harness('pages_text', pages, 'two pages with images and text', quick=dict(text=True), covers=['inline', 'float']),
    Harness('table', table, 'an image of any box in or near a table', quick=dict(area=(70, 290, 110, 170)), covers=['inline', 'cell']),
]
