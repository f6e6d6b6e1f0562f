"""Builders shared by the checks: page content as PyMuPDF hands it to pdf2docx (raw dicts), fake pages and
documents that serve it, and a reader for the docx that python-docx was asked to save."""
import contextlib
import copy

OUT = '/nonexistent-verif/out.docx'


# ------------------------------------------------------------------ raw text
def chars(text, x0, y0, x1, y1, vertical=False):
    """Evenly spread characters."""
    n = len(text)
    out = []
    for i, ch in enumerate(text):
        if vertical:        # bottom to top
            h = (y1 - y0) / n
            out.append({'c': ch, 'bbox': (x0, y1 - h * (i + 1), x1, y1 - h * i), 'origin': (x1, y1 - h * i)})
        else:
            w = (x1 - x0) / n
            out.append({'c': ch, 'bbox': (x0 + w * i, y0, x0 + w * (i + 1), y1), 'origin': (x0 + w * i, y1)})
    return out


def span(text, x0, y0, x1, y1, vertical=False, **kw):
    d = {'bbox': (x0, y0, x1, y1), 'color': 0, 'font': 'Arial', 'size': 10.0, 'flags': 0,
         'chars': chars(text, x0, y0, x1, y1, vertical)}
    d.update(kw)
    return d


def line(spans, vertical=False, **kw):
    if isinstance(spans, dict):
        spans = [spans]
    d = {'wmode': 0, 'dir': (0.0, -1.0) if vertical else (1.0, 0.0), 'spans': spans,
         'bbox': spans[0]['bbox'] if spans else (0, 0, 0, 0)}
    d.update(kw)
    return d


def tline(text, x0, y0, x1, y1, vertical=False, dir=None, **kw):
    d = line(span(text, x0, y0, x1, y1, vertical, **kw), vertical)
    if dir:
        d['dir'] = dir
    return d


def block(lines, **kw):
    if isinstance(lines, dict):
        lines = [lines]
    d = {'type': 0, 'lines': lines, 'bbox': lines[0]['bbox'] if lines else (0, 0, 0, 0)}
    d.update(kw)
    return d


def image(bbox, data=b'img', **kw):
    d = {'type': 1, 'bbox': bbox, 'ext': 'png', 'width': 10, 'height': 10, 'image': data}
    d.update(kw)
    return d


# ------------------------------------------------------------------ raw drawings
def dline(x0, y0, x1, y1, width=1.0, color=(0, 0, 0)):
    """One stroked line as PyMuPDF lists it."""
    import fitz
    a, b = fitz.Point(x0, y0), fitz.Point(x1, y1)
    return {'type': 's', 'color': color, 'fill': None, 'width': width, 'closePath': False, 'even_odd': None,
            'rect': fitz.Rect(x0, y0, x1, y1), 'items': [('l', a, b)], 'opacity': 1.0}


def dfill(x0, y0, x1, y1, fill=(0.5, 0.5, 0.5)):
    """One filled rectangle without border."""
    import fitz
    r = fitz.Rect(x0, y0, x1, y1)
    return {'type': 'f', 'color': None, 'fill': fill, 'width': None, 'closePath': None, 'even_odd': False,
            'rect': r, 'items': [('re', r, 1)], 'opacity': 1.0}


def dtable(xs, ys, width=1.0, color=(0, 0, 0)):
    """All ruling lines of a grid."""
    return [dline(xs[0], y, xs[-1], y, width, color) for y in ys] + \
        [dline(x, ys[0], x, ys[-1], width, color) for x in xs]


ROT = {0: lambda w, h: (1, 0, 0, 1, 0, 0), 90: lambda w, h: (0, 1, -1, 0, h, 0),
       180: lambda w, h: (-1, 0, 0, -1, w, h), 270: lambda w, h: (0, -1, 1, 0, 0, w)}


def rotated_page(angle, w, h, **kw):
    """Fake page of un-rotated size w x h shown rotated by the angle."""
    import fitz
    W, H = (w, h) if angle in (0, 180) else (h, w)
    return FakePage(width=W, height=H, matrix=fitz.Matrix(*ROT[angle](w, h)), unrotated=(W, H), **kw)


# un-rotated writing direction of text that reads left to right on the rotated page
READS_RIGHT = {0: (1.0, 0.0), 90: (0.0, -1.0), 180: (-1.0, 0.0), 270: (0.0, 1.0)}


def rotate_box(angle, w, h, box):
    x0, y0, x1, y1 = box
    return {0: (x0, y0, x1, y1), 90: (h - y1, x0, h - y0, x1), 180: (w - x1, h - y1, w - x0, h - y0),
            270: (y0, w - x1, y1, w - x0)}[angle]


# ------------------------------------------------------------------ fake document
class PageFailure(Exception):
    pass


class FakePage:
    """What pdf2docx uses of fitz.Page.  `content()` returns fresh block dicts."""

    def __init__(self, number=0, width=600, height=800, content=lambda: [], drawings=lambda: [], links=lambda: [],
                 matrix=None, on_load=None, unrotated=None):
        import fitz
        self.number = number
        self.w, self.h = width, height
        self.rect = fitz.Rect(0, 0, width, height)
        self.rotationMatrix = self.rotation_matrix = matrix or fitz.Matrix(0.0)
        self.content, self.drawings, self.links = content, drawings, links
        self.on_load = on_load
        self.parent = None
        self.loads = 0
        self.unrotated = unrotated or (width, height)

    @property
    def bound(self):
        return lambda: self.rect

    def getText(self, kind='text', *a, **k):
        self.loads += 1
        if self.on_load:
            self.on_load(self)
        return {'width': self.unrotated[0], 'height': self.unrotated[1], 'blocks': self.content()}
    get_text = getText

    def getDrawings(self, *a, **k):
        return self.drawings()
    get_drawings = getDrawings
    get_cdrawings = getDrawings

    def getLinks(self):
        return self.links()
    get_links = getLinks

    def getImageList(self, *a, **k):
        return []
    get_images = getImageList


class FakeDoc:
    def __init__(self, pages):
        self.pages_ = list(pages)
        for p in self.pages_:
            p.parent = self
        self.closed = 0
        self.is_closed = False

    def __iter__(self):
        return iter(self.pages_)

    def __len__(self):
        return len(self.pages_)

    def __getitem__(self, i):
        return self.pages_[i]

    load_page = loadPage = __getitem__

    @property
    def page_count(self):
        return len(self.pages_)
    pageCount = page_count

    def pages(self, *a):
        return iter(self.pages_[slice(*a)] if a else self.pages_)

    def close(self):
        self.closed += 1


@contextlib.contextmanager
def patched(*triples):
    """Set attributes (object, name, value) for the duration; missing names are skipped."""
    old = []
    try:
        for o, n, v in triples:
            if isinstance(o, dict):
                old.append((o, n, o.get(n, patched)))
                o[n] = v
            else:
                old.append((o, n, getattr(o, n, patched)))
                setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(old):
            if isinstance(o, dict):
                if v is patched:
                    del o[n]
                else:
                    o[n] = v
            elif v is patched:
                delattr(o, n)
            else:
                setattr(o, n, v)


@contextlib.contextmanager
def documents(open_doc):
    """fitz.Document(name) / fitz.open(name) return open_doc(name); docx saves are captured.
    Yields the list of (path, Document) saved."""
    import docx.document
    import fitz
    import sys
    import pdf2docx.converter
    saved = []

    def save(self, path):
        saved.append((path, self))

    def opener(name=None, *a, **k):
        return open_doc(name)
    tr = [(docx.document.Document, 'save', save), (fitz, 'open', opener), (fitz, 'Document', opener)]
    # names imported directly by the module under test
    for k, v in list(vars(pdf2docx.converter).items()):
        if v is fitz.Document and not k.startswith('__'):
            tr.append((pdf2docx.converter, k, opener))
    with patched(*tr):
        yield saved


@contextlib.contextmanager
def single_doc(pages):
    with documents(lambda name: FakeDoc(pages)) as saved:
        yield saved


# ------------------------------------------------------------------ conversion steps
def parse(fake, **settings):
    """The real Page of a fake fitz page, parsed."""
    from pdf2docx.page.Page import Page
    if fake.parent is None:
        FakeDoc([fake])
    return Page(fake).parse(settings)


def recovered(boxes, data=b'img'):
    """The pictures recovered from the document (pixels are outside of the checks): one at each box."""
    from pdf2docx.image.ImagesExtractor import ImagesExtractor
    out = [image(tuple(b), data) for b in boxes]
    return patched((ImagesExtractor, 'extract_images', staticmethod(lambda *a, **k: [dict(d) for d in out])),
                   (ImagesExtractor, 'extract_vector_graphics', staticmethod(lambda *a, **k: [])))


def own_pictures():
    """The pictures recovered from a page are the images of its text dictionary."""
    from pdf2docx.image.ImagesExtractor import ImagesExtractor
    return patched((ImagesExtractor, 'extract_images', staticmethod(
        lambda page, *a, **k: [dict(b) for b in page.content() if b['type'] == 1])),
        (ImagesExtractor, 'extract_vector_graphics', staticmethod(lambda *a, **k: [])))


def loaded(fake, **settings):
    """The real Page of a fake fitz page with its source content."""
    from pdf2docx.page.Page import Page
    if fake.parent is None:
        FakeDoc([fake])
    page = Page(fake)
    page.settings = page.init_settings(settings)
    return page.restore(page.raw_dict)


def cleaned(fake, **settings):
    """The same after cleaning of its blocks and shapes."""
    page = loaded(fake, **settings)
    page.layout.clean_up(page.settings)
    return page


def docx_of(pages):
    """The real python-docx document the parsed pages are written to."""
    from docx import Document
    doc = Document()
    for p in pages:
        p.make_docx(doc)
    return doc


def convert(fakes, out=OUT, **kw):
    """Sequential conversion of fake pages with the real Converter; the docx document saved."""
    from pdf2docx import Converter
    with single_doc(fakes) as saved:
        cv = Converter('in.pdf')
        cv.convert(out, **kw)
        cv.close()
    assert len(saved) == 1, 'the docx was not saved exactly once'
    return saved[0][1]


# ------------------------------------------------------------------ reading the docx
W = '{http://schemas.openxmlformats.org/wordprocessingml/2006/main}'


def doc_text(el):
    """All characters below an element, in document order (tab and break as \\t, \\n)."""
    out = []
    for e in el.iter():
        if e.tag == W + 't':
            out.append(e.text or '')
        elif e.tag == W + 'tab' and e.getparent().tag == W + 'r':
            out.append('\t')
        elif e.tag in (W + 'br', W + 'cr'):
            out.append('\n')
    return ''.join(out)


def body_paragraph_texts(doc):
    return [doc_text(p) for p in doc.element.body.iter(W + 'p')]
