"""C27: image pixels, alpha and colour space survive recovery."""
from symx.harness import Harness
from checks import lib as L
from checks import pixels as P

NOTE = ('ImagesExtractor with every sample byte of small images and masks (any value, mask of the same or another size), gray, RGB, CMYK and stencil images, '
        'on the page, on its edge, outside of it, listed but not shown, on pages of each rotation.')
ASSUMPTIONS = ['MuPDF decodes, converts and scales samples as documented (modelled; conversion between colour spaces is a function of the colour)',
               'images are drawn upright on the un-rotated page (a picture turned by its own matrix is written as stored)']


def spaces():
    import fitz
    return {'gray': fitz.csGRAY, 'rgb': fitz.csRGB, 'cmyk': fitz.csCMYK, None: None}


def image(c, name, cs, w, h):
    n = cs.n if cs else 1
    px = [tuple(c.int(f'{name}{i}_{k}', 0, 255) for k in range(n)) for i in range(w * h)]
    return P.Pix.new(cs, w, h, px, 0)


def nearest(p, i, j, w, h):
    return p.px[j * p.height // h * p.width + i * p.width // w]


def extract(c, page, doc):
    from pdf2docx.image.ImagesExtractor import ImagesExtractor
    with P.pixmaps():
        return ImagesExtractor.extract_images(page, 3.0)


def check_picture(c, d, src, mask):
    p = d['image'].pix
    c.check(d['type'] == 1 and (d['width'], d['height']) == (p.width, p.height), 'size of the picture')
    W, H = p.width, p.height
    c.check(W * H >= src.width * src.height and W >= src.width and H >= src.height, 'the picture has less pixels than the image')
    c.check(p.colorspace is not None and p.colorspace.n in (1, 3), 'another colour space than gray or RGB')
    c.check(p.colorspace.n >= min(src.nc, 3), 'the colours of the picture are lost')
    c.check(bool(p.alpha) == (mask is not None) or all(c.true(q[-1] == 255) for q in p.px), 'transparency without or lost mask')
    for j in range(H):
        for i in range(W):
            got, want = p.px[j * W + i], nearest(src, i, j, W, H)
            for k in range(p.colorspace.n):
                w = P.convert(src.colorspace, p.colorspace, tuple(want)[:src.nc], k)
                g = got[k]
                if isinstance(w, tuple) or isinstance(g, tuple):
                    c.check(isinstance(g, tuple) and isinstance(w, tuple) and g[:4] == w[:4] and all(c.true(a == b) for a, b in zip(g[4], w[4])), 'colour of a pixel')
                else:
                    c.check(g == w, 'colour of a pixel')
            if p.alpha:
                m = nearest(mask, i, j, W, H)[0] if mask else 255
                c.check(got[-1] == m, 'transparency of a pixel')


def one(c):
    """An image and its mask."""
    kind = c.choice('kind', c.kinds)
    cs = spaces()[kind]
    src = image(c, 'p', cs, *c.size)
    mask = image(c, 'm', spaces()['gray'], *c.choice('size', c.mask)) if c.params.get('mask') else None
    at = c.choice('object', (4, 6)) if mask else 0      # the mask before or after the image in the file
    page = P.Page(images=[(5, at, (100, 100, 200, 150))])
    doc = P.Doc([page], {5: src, **({at: mask} if mask else {})})
    out = extract(c, page, doc)
    c.check(len(out) == 1, f'{len(out)} pictures')
    c.check(tuple(out[0]['bbox']) == (100, 100, 200, 150), 'place of the picture')
    check_picture(c, out[0], src, mask)
    c.cover(kind)
    c.observe([out[0]['image'].pix.colorspace.name, [] if kind == 'cmyk' else [list(q) for q in out[0]['image'].pix.px]])


def turned(c):
    """An image on a rotated page turns along with the page."""
    angle = c.choice('angle', (0, 90, 180, 270))
    w, h = c.size
    src = image(c, 'p', spaces()[c.choice('kind', ('gray', 'rgb'))], w, h)
    mask = image(c, 'm', spaces()['gray'], w, h) if c.choice('mask', (False, True)) else None
    page = P.Page(width=800 if angle in (90, 270) else 600, height=600 if angle in (90, 270) else 800, angle=angle, size=(600, 800),
                  images=[(5, 6 if mask else 0, (100, 100, 200, 150))])
    doc = P.Doc([page], {5: src, **({6: mask} if mask else {})})
    out = extract(c, page, doc)
    c.check(len(out) == 1, f'{len(out)} pictures')
    W, H = (w, h) if angle in (0, 180) else (h, w)
    at = {0: lambda i, j: (i, j), 90: lambda i, j: (j, h - 1 - i),
          180: lambda i, j: (w - 1 - i, h - 1 - j), 270: lambda i, j: (w - 1 - j, i)}[angle]

    def turn(p):
        return P.Pix.new(p.colorspace, W, H, [p.px[at(i, j)[1] * w + at(i, j)[0]] for j in range(H) for i in range(W)], p.alpha)
    p = out[0]['image'].pix
    c.check((p.width, p.height) == (W, H), 'size of the picture')
    check_picture(c, out[0], turn(src), turn(mask) if mask else None)
    c.check(c.both(*[c.near(a, b, 0.02) for a, b in zip(out[0]['bbox'], (100, 100, 200, 150))]), 'place of the picture')
    c.cover(angle)
    c.observe([list(q) for q in p.px])


def stencil(c):
    """An image without colours is shown as on the page, without text."""
    x, y = c.int('x', 0, 500), c.int('y', 0, 700)
    box = (x, y, x + 50, y + 40)
    src = P.Pix.new(None, 2, 1, [(9,), (8,)], 0)
    page = P.Page(images=[(5, 0, box)])
    doc = P.Doc([page], {5: src}, {k: s for k, s in enumerate(c.choice('stream', STREAMS), 1)})
    out = extract(c, page, doc)
    c.check(len(out) == 1, f'{len(out)} pictures')
    v = out[0]['image'].pix.view
    c.check(v is not None, 'a picture without colour')
    c.check(not v['text'], 'text is shown in the picture')
    c.check(c.both(*[c.near(a, b, 0.01) for a, b in zip(v['box'], box)], *[c.near(a, b, 0.01) for a, b in zip(out[0]['bbox'], box)]), 'another part of the page is shown')
    c.check(v['zoom'] >= 1, 'resolution')
    c.observe(list(out[0]['bbox']))


STREAMS = [[b'BT /F1 12 Tf 50 60 Td (abc) Tj ET'], [b'q BT /F1 12 Tf 1 0 0 1 50 60 Tm (abc) Tj ET Q', b'BT 5 6 Td [(d) 3 (e)] TJ ET'],
           [b'BT 0 Tr /F1 12 Tf 50 60 Td (abc) Tj ET'], [b'BT /F1 12 Tf 50 60 Td 0 Tr (abc) Tj 2 Tr (d) Tj ET'], [b'0 0 m 5 5 l S'],
           [b'1 Tr BT /F1 9 Tf (x) Tj ET', b'BT 3 4 Td (y) Tj 0 Tr 1 0 0 1 2 3 Tm (z) Tj ET']]


def several(c):
    """Several images on, beside and off the page; some listed are not shown."""
    W, H = 600, 800
    imgs, pix, want = [], {}, []
    for k in range(c.n):
        what = c.choice(f'what{k}', ('shown', 'hidden')) if k else 'shown'
        x, y = (c.int(f'x{k}', -100, 700), c.int(f'y{k}', -100, 900)) if k == 0 else (100 * k, 200)
        b = (x, y, x + 50, y + 40)
        pix[10 + k] = P.Pix.new(spaces()['rgb'], 1, 1, [(k, k, k)], 0)
        imgs.append((10 + k, 0, b if what == 'shown' else None))
        want.append((b, k, what))
    angle = c.choice('angle', (0, 90, 180, 270))
    pw, ph = (H, W) if angle in (90, 270) else (W, H)
    page = P.Page(width=pw, height=ph, images=imgs, angle=angle, size=(W, H))
    doc = P.Doc([page], pix)
    out = extract(c, page, doc)
    for b, k, what in want:
        hit = [d for d in out if d['image'].pix.view is None and d['image'].pix.px[0][0] == k]
        inside = c.both(b[0] < W, b[1] < H, b[2] > 0, b[3] > 0)
        far = c.either(b[0] > W, b[1] > H, b[2] < 0, b[3] < 0)
        if what == 'hidden' or c.true(far):
            c.check(not hit, 'a picture not on the page')
            c.cover('off')
        elif c.true(inside):
            c.check(len(hit) == 1, 'an image on the page is lost')
            c.check(c.both(*[c.near(p, q, 0.02) for p, q in zip(hit[0]['bbox'], b)]), 'place of an image')
            c.cover('on')
    c.observe(len(out))


HARNESSES = [
    Harness('opaque', one, 'images without mask, all sample values', quick=dict(kinds=['gray', 'rgb', 'cmyk'], size=[2, 1]), covers=['gray', 'rgb', 'cmyk']),
    Harness('masked', one, 'images with a soft mask, all sample values', quick=dict(kinds=['gray', 'rgb', 'cmyk'], size=[2, 1], mask=[[2, 1]]), covers=['gray', 'rgb', 'cmyk'],
            thorough=dict(kinds=['gray', 'rgb', 'cmyk'], size=[3, 2], mask=[[3, 2]])),
    Harness('small_mask', one, 'a soft mask smaller than its image', quick=dict(kinds=['gray', 'rgb'], size=[2, 2], mask=[[1, 2], [2, 1], [1, 1]])),
    Harness('large_mask', one, 'a soft mask larger than its image', quick=dict(kinds=['gray', 'cmyk'], size=[1, 2], mask=[[2, 2], [1, 3], [1, 4], [2, 4]])),
    Harness('turned', turned, 'images on rotated pages', quick=dict(size=[3, 2]), covers=[0, 90, 180, 270]),
    Harness('stencil', stencil, 'a stencil mask anywhere on pages of different texts'),
    Harness('several', several, 'three images, on, off or not shown on a rotated page', quick=dict(n=3), covers=['on', 'off']),
]
