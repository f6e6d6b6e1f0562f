"""C03: a failing page never takes other pages with it."""
import io

from symx.harness import Harness
from checks import docxread as D
from checks import lib as L

NOTE = ('Documents of up to three pages (thorough: four); each page may fail when its text, drawings or links are read, '
        'while its layout is analysed or while it is written, with any of eight exception types.')
ASSUMPTIONS = ['faults are raised by the reader (text, drawings, links, images), by settings that cannot be used or by python-docx while a picture is added',
               'a page that fails while it is written may leave a part of its own content']
EXC = (RuntimeError, ValueError, KeyError, IndexError, TypeError, ZeroDivisionError, AttributeError, MemoryError)
STAGES = ('text', 'drawings', 'links', 'layout', 'write')


SETTINGS = {'connected_border_tolerance': 0.5, 'max_border_width': 6.0, 'min_border_clearance': 2.0, 'float_image_ignorable_gap': 5.0,
            'float_layout_tolerance': 0.1, 'page_margin_factor_top': 0.5, 'page_margin_factor_bottom': 0.5, 'shape_merging_threshold': 0.5,
            'shape_min_dimension': 2.0, 'line_overlap_threshold': 0.9, 'line_free_space_ratio_threshold': 0.1, 'line_merging_threshold': 2.0,
            'line_separate_threshold': 5.0, 'lines_left_aligned_threshold': 1.0, 'lines_right_aligned_threshold': 1.0,
            'lines_center_aligned_threshold': 2.0}


class Touchy(float):
    """A setting that cannot be used on some pages."""
    faults = None

    def _use(name):
        def f(self, *a):
            if Touchy.faults is not None:
                Touchy.faults.used()
            return getattr(float, name)(self, *a)
        return f
    for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__lt__', '__le__', '__gt__',
               '__ge__', '__eq__', '__ne__', '__neg__', '__bool__', '__float__'):
        locals()[_n] = _use(_n)
    __hash__ = float.__hash__


def settings(faults):
    """All numeric settings, each failing on the pages planned."""
    Touchy.faults = faults
    return {k: Touchy(v) for k, v in SETTINGS.items()}


class Faults:
    """Fault schedule: page i fails at the stage its number says (-1: not at all)."""

    def __init__(self, c, n, stages, tag=''):
        self.c = c
        self.stage = [c.int(f'fail{tag}{i}', -1, len(stages) - 1) for i in range(n)]
        self.stages = stages
        self.exc = c.choice('exc' + tag, EXC[:c.excs])
        self.now, self.fired = None, set()

    def at(self, i, stage):
        return stage in self.stages and self.c.true(self.stage[i] == self.stages.index(stage))

    def hit(self, i, stage):
        if self.at(i, stage):
            raise self.exc(f'planned failure of page {i}')

    def load(self, i):
        """Page i is read from now on."""
        self.now = i if self.at(i, 'layout') else None
        self.hit(i, 'text')

    def used(self):
        """A setting is used."""
        if self.now is not None:
            self.fired.add(self.now)
            raise self.exc(f'planned failure of page {self.now}')

    def parse_fails(self, i):
        return i in self.fired or any(self.at(i, s) for s in self.stages if s not in ('write', 'layout'))



def make(c, n, faults, table=False):
    """faults: callable returning the schedule in force."""
    def page(i):
        def content():
            bs = [L.block(L.tline(f'a{i}.', 100, 100, 160, 112))]
            if faults().at(i, 'write'):
                bs.append(L.image((100, 200, 200, 260), b'no picture'))
            bs.append(L.block(L.tline(f'b{i}.', 100, 400, 160, 412)))
            return bs

        def drawings():
            faults().hit(i, 'drawings')
            return L.dtable((90, 250, 300), (390, 420)) if table else []

        def links():
            import fitz
            faults().hit(i, 'links')
            return [{'kind': 2, 'from': fitz.Rect(100, 100, 160, 112), 'uri': f'http://a/\x01{i}'}]    # not allowed in XML as it is
        return L.FakePage(i, 500 + 10 * i, 800, content=content, drawings=drawings, links=links,
                          on_load=lambda p: faults().load(i))
    return [page(i) for i in range(n)]


def expect(c, doc, good, broken, n):
    """good: pages that must be there completely; broken: pages that may be there in part; others must not be."""
    pages = [(s.width, ''.join(D.text(items).split())) for s, items in D.pages(doc)]
    c.observe([t for _, t in pages])
    flat = ''.join(t for _, t in pages)
    for i in range(n):
        k = flat.count(f'a{i}.'), flat.count(f'b{i}.')
        if i in good:
            c.check(k == (1, 1), f'page {i} is there {k} times, its neighbours failing')
        elif i not in broken:
            c.check(k == (0, 0), f'page {i} must not be in the docx')
            c.check(not any(c.true(c.near(w, 500 + 10 * i, 0.06)) for w, _ in pages), f'page {i} could not be parsed but has a section')
        else:
            c.check(max(k) <= 1, f'the failing page {i} is there several times')
    seen = [i for i in good if f'a{i}.' in flat]
    c.check(seen == sorted(seen, key=lambda i: flat.index(f'a{i}.')), 'pages out of order')
    for i in good:
        own = [(w, t) for w, t in pages if f'a{i}.' in t]
        for w, t in own:
            c.check(c.near(w, 500 + 10 * i, 0.06), f'page {i} has the section of another page')
            c.check(not any(f'a{j}.' in t for j in range(n) if j != i), f'page {i} shares its section with another one')


def convert(c):
    """Converting with any schedule of failing pages."""
    from pdf2docx import Converter
    n = c.n
    f = Faults(c, n, STAGES)
    fakes = make(c, n, lambda: f)
    err = None
    start = c.int('start', 0, n - 1)
    with L.single_doc(fakes) as saved, L.own_pictures():
        cv = Converter('/nonexistent-verif/in.pdf')
        try:
            cv.convert(L.OUT, start=start, kwargs=settings(f))
        except Exception as e:
            err = e
    sel = [i for i in range(n) if c.true(i >= start)]
    bad = [i for i in sel if f.parse_fails(i)]
    written = [i for i in sel if i not in bad]
    if not written:
        c.check(err is not None and not saved, 'no page could be parsed, but no error is reported')
        c.cover('none')
        return
    c.check(err is None, f'conversion fails as a whole: {type(err).__name__}')
    c.check(len(saved) == 1, 'the docx is not saved')
    broken = [i for i in written if f.at(i, 'write')]
    if saved:
        saved[0][1]._part.save(io.BytesIO())
        expect(c, saved[0][1], [i for i in written if i not in broken], broken, n)
    c.cover('broken' if broken else 'bad' if bad else 'fine')
    if f.fired:
        c.cover('layout')


def tables(c):
    """Extracting tables with any schedule of failing pages."""
    from pdf2docx import Converter
    n = c.n
    f = Faults(c, n, STAGES[:4])
    fakes = make(c, n, lambda: f, True)
    with L.single_doc(fakes), L.own_pictures():
        cv = Converter('/nonexistent-verif/in.pdf')
        got = cv.extract_tables(kwargs=settings(f))
    got = [t[0][0] for t in got]
    want = [f'b{i}.' for i in range(n) if not f.parse_fails(i)]
    c.check(got == want, f'tables {got}, pages parsed {want}')
    c.observe(got)
    c.cover(len(want))


def history(c):
    """Parsing in steps: a page is written if its last parse worked."""
    from pdf2docx import Converter
    n = c.n
    fs = [Faults(c, n, STAGES[2:4], f'_{k}') for k in range(2)]
    now = [0]
    fakes = make(c, n, lambda: fs[now[0]])
    sel = [[i for i in range(n) if c.true(c.bool(f'sel{k}_{i}'))] for k in range(2)]
    err = None
    with L.single_doc(fakes) as saved, L.own_pictures():
        cv = Converter('/nonexistent-verif/in.pdf')
        for k in range(2):
            now[0] = k
            cv.parse(sel[k], settings(fs[k]))
        try:
            cv.make_docx(L.OUT)
        except Exception as e:
            err = e
    good = []
    for i in range(n):
        last = [k for k in range(2) if i in sel[k]]
        if last and not fs[last[-1]].parse_fails(i):
            good.append(i)
    if not good:
        c.check(err is not None and not saved, 'no page could be parsed, but no error is reported')
        return
    c.check(err is None and len(saved) == 1, f'the docx is not saved: {type(err).__name__}')
    if saved:
        pages = [''.join(D.text(items).split()) for s, items in D.pages(saved[0][1])]
        flat = ''.join(pages)
        c.observe(flat)
        for i in range(n):
            there = f'a{i}.' in flat
            c.check(there == (i in good), f'page {i} is {"" if there else "not "}written, its last parse '
                                          f'{"worked" if i in good else "failed"}')
    c.cover('some')


HARNESSES = [
    Harness('convert', convert, 'any pages failing at any stage, any first page', quick=dict(n=3, excs=3), thorough=dict(n=4, excs=8),
            covers=['none', 'broken', 'bad', 'fine', 'layout']),
    Harness('exceptions', convert, 'two pages, eight exception types', quick=dict(n=2, excs=8), covers=['none', 'broken', 'bad', 'fine', 'layout']),
    Harness('tables', tables, 'table extraction, any pages failing', quick=dict(n=3, excs=2), thorough=dict(n=4, excs=8), covers=[0, 1, 2, 3]),
    Harness('history', history, 'two parse calls of any pages, failing or not', quick=dict(n=2, excs=1), thorough=dict(n=3, excs=1), covers=['some']),
]
