"""C01: exactly the requested pages are converted, in document order."""
from symx.harness import Harness
from symx.symstr import SymSeq

from . import lib


def make_pages(n, table=False):
    def content(i):
        return lambda: [lib.block(lib.tline(f'P{i}.', 100, 100, 200, 112))]

    def drawings():
        if not table:
            return []
        import fitz
        L = [((90, 90), (300, 90)), ((90, 130), (300, 130)), ((90, 90), (90, 130)), ((300, 90), (300, 130)),
             ((250, 90), (250, 130))]
        return [{'color': (0, 0, 0), 'fill': None, 'width': 1.0, 'closePath': False, 'rect': fitz.Rect(a, b),
                 'items': [('l', fitz.Point(a), fitz.Point(b))]} for a, b in L]
    return [lib.FakePage(i, content=content(i), drawings=drawings) for i in range(n)]


def expected(c, n, start, end, pages):
    """Indexes asked for (zero based), decided for the path at hand."""
    if pages:
        return [i for i in range(n) if c.true(c.either(*[p == i for p in pages]))]
    out = []
    lo = c.ite(start < 0, c.max(start + n, 0), start)
    hi = n if end is None else c.ite(end < 0, end + n, end)
    for i in range(n):
        if c.true(c.both(lo <= i, i < hi)):
            out.append(i)
    return out


def run(c, call, pages, exp, table):
    """call() converts; compare what was parsed and what came out with exp."""
    result, err = None, None
    with lib.single_doc(pages) as saved:
        try:
            result = call()
        except Exception as e:
            err = e
    parsed = [i for i, p in enumerate(pages) if p.loads]
    c.check(parsed == exp, f'parsed pages {parsed}, requested {exp}')
    if table:
        c.check(err is None, f'extracting tables failed: {err}')
        got = [t[0][0] for t in result]
        c.check(got == [f'P{i}.' for i in exp], f'tables of pages {got}, requested {exp}')
    elif exp:
        c.check(err is None and len(saved) == 1, f'conversion did not write the docx: {err}')
        text = lib.doc_text(saved[0][1].element.body).replace('\n', '')
        c.check(text == ''.join(f'P{i}.' for i in exp), f'docx has {text!r}, requested {exp}')
    else:
        c.check(not saved, 'an empty selection wrote a docx')
    c.cover('some' if exp else 'none')
    if exp and len(exp) < len(pages):
        c.cover('part')


def pick_n(c):
    return c.pick('n', 1, c.n)


def rng(c):
    """start:end with Python slice rules, zero based."""
    from pdf2docx import Converter
    n = pick_n(c)
    start = c.int('start', -c.n - 2, c.n + 2)
    end = None if c.pick('open_end', 0, 1) else c.int('end', -c.n - 2, c.n + 2)
    table = c.pick('table', 0, 1)
    empty = c.pick('pages', 0, 1)
    pages = make_pages(n, table)

    def call():
        cv = Converter('/nonexistent-verif/a.pdf')
        kw = dict(start=start)
        if end is not None:
            kw['end'] = end
        if empty:
            kw['pages'] = []
        return cv.extract_tables(**kw) if table else cv.convert(lib.OUT, **kw)
    run(c, call, pages, expected(c, n, start, end, None), table)


def plist(c):
    """an explicit list of pages (any order, repeats, out of range) wins over start/end."""
    from pdf2docx import Converter
    n = pick_n(c)
    sel = [c.int(f'p{i}', -2, c.n + 1) for i in range(c.pick('k', 1, c.k))]
    table = c.pick('table', 0, 1)
    pages = make_pages(n, table)

    def call():
        cv = Converter('/nonexistent-verif/a.pdf')
        if table:
            return cv.extract_tables(pages=list(sel), start=1)
        return cv.convert(lib.OUT, pages=tuple(sel), end=1)
    exp = expected(c, n, 0, None, sel)
    run(c, call, pages, exp, table)


def cli(c):
    """the command-line functions, numbering from zero or from one."""
    from pdf2docx.main import PDF2DOCX
    n = pick_n(c)
    base = c.pick('one_based', 0, 1)
    table = c.pick('table', 0, 1)
    kind = c.pick('kind', 0, 2)
    kw, sel, start, end = {}, None, 0, None
    lo = 1 if base else -1
    if kind == 0:
        sel = [c.int(f'p{i}', lo, c.n + 2) for i in range(c.k)]
        kw['pages'] = list(sel)
        sel = [p - base for p in sel]
    else:
        s = c.int('start', lo, c.n + 2)
        kw['start'] = s
        start = s - base
        if kind == 2:
            e = c.int('end', lo, c.n + 2)
            kw['end'] = e
            end = e - base
    if base:
        kw['zero_based_index'] = False
    elif c.pick('explicit_zero', 0, 1):
        kw['zero_based_index'] = True
    pages = make_pages(n, table)

    def call():
        if table:
            return PDF2DOCX.table('/nonexistent-verif/a.pdf', **kw)
        return PDF2DOCX.convert('/nonexistent-verif/a.pdf', lib.OUT, **kw)
    exp = expected(c, n, start, end, sel)
    run(c, call, pages, exp, table)


def default(c):
    """no selection at all converts every page."""
    from pdf2docx import Converter, parse
    n = pick_n(c)
    mode = c.pick('mode', 0, 3)
    pages = make_pages(n, mode == 1)

    def call():
        if mode == 0:
            return parse('/nonexistent-verif/a.pdf', lib.OUT)
        cv = Converter('/nonexistent-verif/a.pdf')
        if mode == 1:
            return cv.extract_tables()
        if mode == 2:
            return cv.parse().make_docx(lib.OUT)
        return cv.convert(lib.OUT)
    run(c, call, pages, list(range(n)), mode == 1)


def debug_page(c):
    """debugging one page parses that page only."""
    from pdf2docx.main import PDF2DOCX
    import pdf2docx.converter as m
    n = pick_n(c)
    base = c.pick('one_based', 0, 1)
    i = c.int('page', 1 if base else 0, c.n + 1)
    pages = make_pages(n)
    exp = expected(c, n, 0, None, [i - base])
    kw = {'zero_based_index': False} if base else {}

    class Sink:
        def __init__(self, *a): pass
        def newPage(self, **k): return Sink()
        def __getattr__(self, k): return lambda *a, **k: None
    err = None
    with lib.documents(lambda name: FakeOr(pages, name, Sink)) as saved:
        with lib.patched((m.Converter, 'serialize', lambda *a, **k: None)):
            try:
                PDF2DOCX.debug('/nonexistent-verif/a.pdf', i, lib.OUT, '/nonexistent-verif/d.pdf', **kw)
            except Exception as e:
                err = e
    parsed = [k for k, p in enumerate(pages) if p.loads]
    c.check(parsed == exp, f'parsed pages {parsed}, requested {exp}')
    c.check(len(saved) == (1 if exp else 0), f'docx written {len(saved)} times: {err}')


def FakeOr(pages, name, sink):
    return lib.FakeDoc(pages) if name else sink()


def getitem(c):
    """cv[i] and cv[a:b] follow sequence rules."""
    from pdf2docx import Converter
    n = pick_n(c)
    pages = make_pages(n)
    mode = c.pick('mode', 0, 1)
    with lib.single_doc(pages):
        cv = Converter('/nonexistent-verif/a.pdf')
        c.check(len(cv) == n, 'len(converter) is not the number of pages')
        if c.symbolic:
            cv._pages = SymSeq(cv._pages)
        allp = [cv[i] for i in range(n)]
        c.check([p.fitz_page.number for p in allp] == list(range(n)), 'cv[i] is not page i')
        if mode == 0:
            i = c.int('i', -c.n - 2, c.n + 2)
            try:
                got = cv[i]
            except IndexError:
                got = None
            if c.true(c.both(i >= -n, i < n)):
                j = c.ite(i < 0, i + n, i)
                c.check(got is not None, 'an existing page index raises')
                if got is not None:
                    c.check(j == allp.index(got), 'wrong page for an index')
            else:
                c.check(got is None, 'an index out of range returns a page')
            c.cover('index')
        else:
            a = None if c.pick('no_a', 0, 1) else c.int('a', -c.n - 2, c.n + 2)
            b = None if c.pick('no_b', 0, 1) else c.int('b', -c.n - 2, c.n + 2)
            got = [allp.index(p) for p in cv[a:b]]
            exp = expected(c, n, 0 if a is None else a, b, None)
            c.check(got == exp, f'slice gives pages {got}, expected {exp}')
            c.cover('slice')


ASSUMPTIONS = ['pages are served by a stand-in for fitz.Document with one text line (and, for extraction, one ruled '
               'table) each; the docx is read at python-docx Document.save',
               'one-based numbering is exercised with numbers >= 1']
HARNESSES = [
    Harness('range', rng, 'documents of 1..n pages, start/end anywhere in -n-2..n+2 or open', quick=dict(n=3), thorough=dict(n=6), covers=['some', 'none', 'part']),
    Harness('list', plist, 'documents of 1..n pages, lists of 1..k page numbers in -2..n+1', quick=dict(n=3, k=2), thorough=dict(n=4, k=3), covers=['some', 'none', 'part']),
    Harness('cli', cli, 'command-line functions, both numberings', quick=dict(n=2, k=2), thorough=dict(n=4, k=2), covers=['some', 'none', 'part']),
    Harness('default', default, 'no selection', quick=dict(n=3), thorough=dict(n=6), covers=['some']),
    Harness('debug_page', debug_page, 'debug conversion of one page', quick=dict(n=3), thorough=dict(n=6)),
    Harness('getitem', getitem, 'index and slice access of the converter', quick=dict(n=3), thorough=dict(n=6), covers=['index', 'slice']),
]
