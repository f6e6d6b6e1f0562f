"""Pictures of a page as MuPDF, OpenCV and numpy present them: what ImagesExtractor uses of them."""
import re
import sys
import types

from checks import lib as L


class PNG(bytes):
    """Encoded picture that remembers its pixels."""
    pix = None


class Samples(list):
    """Bytes of a pixmap (possibly symbolic)."""

    def tobytes(self):
        return self


class Pix:
    """fitz.Pixmap: pixels are (components..., alpha)."""
    count = 0

    def __init__(self, *a):
        self.alpha, self.view = 0, None
        Pix.count += 1
        self.id = Pix.count
        if len(a) == 2 and hasattr(a[0], 'pixmaps'):
            src = a[0].pixmaps[a[1]]
            self._set(src.colorspace, src.width, src.height, [tuple(p) for p in src.px], src.alpha)
        elif len(a) == 2 and isinstance(a[0], Pix) and isinstance(a[1], int):
            s = a[0]
            full = s.px if s.alpha else [tuple(p) + (255,) for p in s.px]
            self._set(s.colorspace, s.width, s.height, full if a[1] else [tuple(p)[:s.nc] for p in s.px], 1 if a[1] else 0)
        elif len(a) == 2 and isinstance(a[0], Pix) and isinstance(a[1], Pix):
            s, m = a
            if (s.width, s.height) != (m.width, m.height) or m.n != 1 or s.alpha:
                raise ValueError('bad mask')
            self._set(s.colorspace, s.width, s.height, [tuple(p) + tuple(q) for p, q in zip(s.px, m.px)], 1)
        elif len(a) == 2 and isinstance(a[1], Pix):
            cs, s = a
            if cs is None:
                self._set(None, s.width, s.height, [tuple(p)[s.nc:] for p in s.px], s.alpha)
            else:
                n = cs.n
                self._set(cs, s.width, s.height, [tuple(convert(s.colorspace, cs, tuple(p)[:s.nc], k) for k in range(n)) + tuple(p)[s.nc:] for p in s.px], s.alpha)
        elif len(a) == 1 and isinstance(a[0], Pix):
            s = a[0]
            self._set(s.colorspace, s.width, s.height, list(s.px), s.alpha)
        elif len(a) in (3, 4) and isinstance(a[0], Pix):
            if len(a) != 4:
                raise ValueError('bad clip parameter')
            s, w, h = a[:3]
            self._set(s.colorspace, w, h, [s.px[j * s.height // h * s.width + i * s.width // w] for j in range(h) for i in range(w)], s.alpha)
        elif len(a) == 5:
            cs, w, h, data, alpha = a
            n = (cs.n if cs else 0) + (1 if alpha else 0)
            data = list(data)
            if len(data) != n * w * h:
                raise ValueError('bad samples length')
            self._set(cs, w, h, [tuple(data[k * n:k * n + n]) for k in range(w * h)], 1 if alpha else 0)
        else:
            raise TypeError(f'Pixmap{a}')

    @classmethod
    def new(cls, cs, w, h, px, alpha=0, view=None):
        p = cls.__new__(cls)
        cls.count += 1
        p.id, p.view = cls.count, view
        p._set(cs, w, h, px, alpha)
        return p

    def _set(self, cs, w, h, px, alpha):
        self.colorspace, self.width, self.height, self.px, self.alpha = cs, w, h, px, alpha
        self.w, self.h = w, h

    @property
    def nc(self):
        return self.colorspace.n if self.colorspace else (0 if self.alpha else 1)

    @property
    def n(self):
        return self.nc + self.alpha

    @property
    def samples(self):
        return Samples(v for p in self.px for v in p)

    def setAlpha(self, alphavalues=None, *a, **k):
        if not self.alpha:
            raise ValueError('no alpha channel')
        if alphavalues is None:
            v = [255] * len(self.px)
        else:
            v = list(alphavalues)
            if len(v) < len(self.px):
                raise ValueError('bad alpha values')
        self.px = [tuple(p)[:-1] + (q,) for p, q in zip(self.px, v)]
    set_alpha = setAlpha

    def getPNGData(self):
        cs = self.colorspace
        if cs is not None and cs.n == 4:
            raise ValueError('unsupported colorspace for png')
        d = PNG(b'picture-%d' % self.id)
        d.pix = self
        return d

    def tobytes(self, output='png', *a):
        return self.getPNGData()

    getImageData = tobytes


def convert(a, b, v, k):
    """Component k in colorspace b of a colour of colorspace a."""
    return v[k] if a is b else ('converted', a.name, b.name, k, v)


def hidden(stream):
    """No text of the stream is shown (text rendering mode 3)."""
    mode, stack = 0, [0]
    toks = re.findall(rb'\([^)]*\)|[^\s()]+', stream)
    for i, t in enumerate(toks):
        if t == b'Tr':
            mode = int(toks[i - 1])
        elif t == b'q':
            stack.append(mode)
        elif t == b'Q':
            mode = stack.pop()
        elif t in (b'Tj', b'TJ', b"'", b'"') and mode not in (3, 7):
            return False
    return True


class Doc(L.FakeDoc):
    def __init__(self, pages, pixmaps=None, streams=None):
        super().__init__(pages)
        self.pixmaps, self.streams = pixmaps or {}, streams if streams is not None else {1: b'BT 50 60 Td (abc) Tj ET'}

    def xrefStream(self, x):
        return self.streams[x]
    xref_stream = xrefStream

    def updateStream(self, x, data, *a, **k):
        self.streams[x] = data
    update_stream = updateStream


class Page(L.FakePage):
    """A page that lists and renders pictures.  images: [(xref, mask, box in un-rotated coordinates | None)]."""

    def __init__(self, *a, images=(), angle=0, size=None, **k):
        import fitz
        self.rendered = []
        super().__init__(*a, **k)
        self.images, self.rotation = list(images), angle
        w, h = size or (self.w, self.h)
        if angle:
            self.rotationMatrix = self.rotation_matrix = fitz.Matrix(*L.ROT[angle](w, h))
        W, H = (w, h) if angle in (0, 180) else (h, w)
        self.derotationMatrix = self.derotation_matrix = fitz.Matrix(*L.ROT[{0: 0, 90: 270, 180: 180, 270: 90}[angle]](W, H)) \
            if angle else fitz.Matrix(0.0)

    def getImageList(self, full=False):
        out = []
        for k, (x, m, _) in enumerate(self.images):
            p = self.parent.pixmaps[x]
            r = (x, m, p.width, p.height, 8, p.colorspace.name if p.colorspace else '', '', f'Im{k}', 'FlateDecode')
            out.append(r + (77,) if full else r)
        return out
    get_images = getImageList

    def getImageBbox(self, item, *a, **k):
        import fitz
        name = item if isinstance(item, str) else item[7]
        if not isinstance(item, str) and len(item) > 9 and item[-1] != 0:
            raise ValueError('image is not on the page')
        for k, (_, _, b) in enumerate(self.images):
            if f'Im{k}' == name:
                if b is None:
                    raise ValueError('bad image name')
                return fitz.Rect(b) * self.rotationMatrix
        raise ValueError('bad image name')
    get_image_bbox = getImageBbox

    def get_contents(self):
        return list(self.parent.streams)
    getContents = get_contents

    def getPixmap(self, clip=None, matrix=None, alpha=False, dpi=None, **k):
        import fitz
        box = self.rect if clip is None else clip
        view = dict(box=tuple(box), zoom=matrix.a if matrix is not None else 1, text=not all(hidden(s) for s in self.parent.streams.values()))
        self.rendered.append(view)
        cs = fitz.csRGB
        return Pix.new(cs, 7, 5, [], 1 if alpha else 0, view)
    get_pixmap = getPixmap


class Image:
    """Gray picture of the page in OpenCV: remembers what is painted white."""

    def __init__(self, rows, cols):
        self.shape, self.white = (rows, cols, 3), []

    def copy(self):
        m = Image(*self.shape[:2])
        m.white = list(self.white)
        return m

    def __setitem__(self, key, value):
        assert value == 255
        ys, xs = key
        self.white.append(self._range(xs, self.shape[1]) + self._range(ys, self.shape[0]))

    def _range(self, s, n):
        from checks.pixels import CTX
        c = CTX[0]

        def norm(v, d):
            if v is None:
                return d
            v = c.ite(v < 0, c.max(v + n, 0), v)
            return c.min(v, n)
        return norm(s.start, 0), norm(s.stop, n)


CTX = [None]


def vision(c, page, blobs):
    """Fake cv2 and numpy; blobs: () -> [(x0, y0, x1, y1)] of what is drawn on the page, as displayed."""
    CTX[0] = c
    cv, np = types.ModuleType('cv2'), types.ModuleType('numpy')
    np.uint8 = 'uint8'
    np.frombuffer = lambda b, *a, **k: b if isinstance(b, PNG) else Flat(b)
    np.asarray = np.array = lambda b, *a, **k: b
    np.rot90 = rot90
    for k in ('IMREAD_COLOR', 'COLOR_BGR2GRAY', 'THRESH_BINARY_INV', 'MORPH_RECT', 'MORPH_CLOSE', 'RETR_EXTERNAL', 'CHAIN_APPROX_SIMPLE', 'IMREAD_GRAYSCALE', 'FILLED'):
        setattr(cv, k, k)

    def imdecode(b, *a):
        v = b.pix.view
        assert v is not None
        w, h = v['box'][2] - v['box'][0], v['box'][3] - v['box'][1]
        m = Image(int(h * v['zoom']), int(w * v['zoom']))
        m.view = v
        return m

    def rectangle(m, p, q, *a, **k):
        m.white.append((p[0], q[0] + 1, p[1], q[1] + 1))
        return m

    def kernel(shape, size, *a):
        if c.true(size[0] < 1) or c.true(size[1] < 1):
            raise ValueError('OpenCV: Assertion failed (anchor.inside(Rect(0, 0, ksize.width, ksize.height)))')
        return size

    def find(m, *a):
        out = []
        for b in blobs(m.view if hasattr(m, 'view') else None):
            cover = [c.both(w[0] <= b[0], w[1] >= b[2], w[2] <= b[1], w[3] >= b[3]) for w in m.white]
            if not c.true(c.either(False, *cover)):
                out.append(b)
        return out, None

    def same(m, *a, **k):
        return m
    cv.imdecode, cv.rectangle, cv.getStructuringElement, cv.findContours = imdecode, rectangle, kernel, find
    cv.cvtColor = cv.GaussianBlur = cv.morphologyEx = cv.blur = cv.dilate = same
    cv.threshold = lambda m, *a, **k: (250, m)
    cv.boundingRect = lambda b: (b[0], b[1], b[2] - b[0], b[3] - b[1])
    import fitz
    return L.patched((sys.modules, 'cv2', cv), (sys.modules, 'numpy', np), (fitz, 'Pixmap', Pix))


class Array:
    """numpy array of rows of pixels."""

    def __init__(self, rows):
        self.rows = rows

    @property
    def shape(self):
        return len(self.rows), len(self.rows[0]), len(self.rows[0][0])

    def tobytes(self, *a):
        return Samples(v for r in self.rows for p in r for v in p)


class Flat(Samples):
    def reshape(self, *a):
        h, w, n = a[0] if len(a) == 1 else a
        v = list(self)
        if h == -1:
            h = len(v) // (w * n)
        if n == -1:
            n = len(v) // (w * h)
        if h * w * n != len(v):
            raise ValueError('cannot reshape')
        return Array([[tuple(v[(j * w + i) * n:(j * w + i + 1) * n]) for i in range(w)] for j in range(h)])


def rot90(m, k=1, axes=(0, 1)):
    rows = m.rows
    for _ in range(k % 4):        # counter-clockwise
        rows = [list(r) for r in zip(*rows)][::-1]
    return Array([list(r) for r in rows])


def pixmaps():
    import fitz
    np = types.ModuleType('numpy')
    np.uint8 = 'uint8'
    np.frombuffer = lambda b, *a, **k: Flat(b)
    np.array = np.asarray = lambda b, *a, **k: b if isinstance(b, Array) else Flat(b)
    np.rot90 = rot90
    np.flipud = lambda m: Array(m.rows[::-1])
    np.fliplr = lambda m: Array([r[::-1] for r in m.rows])
    np.ascontiguousarray = lambda m: m
    return L.patched((fitz, 'Pixmap', Pix), (sys.modules, 'numpy', np))
