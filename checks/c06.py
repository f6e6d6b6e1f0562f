"""C06: converting again gives the same result as converting once."""
from symx.harness import Harness
from checks import docxread as D
from checks import lib as L
from checks import samples as S
from checks.c05 import blobs, content, read, same

NOTE = ('Whole pages are parsed once and written; the same page object is parsed again (directly, or after being parsed with other '
        'settings) and everything read from the docx and the extracted tables must agree.  Converters with any history of earlier '
        'conversions, extractions and failures must agree with a fresh one.')
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'the source page delivers the same content each time it is read']
OTHER = dict(extract_stream_table=True, max_border_width=0.2, min_border_clearance=9.0, float_image_ignorable_gap=50.0, page_margin_factor_top=0.1,
             shape_merging_threshold=0.01, line_separate_threshold=1.0, lines_left_aligned_threshold=30.0, connected_border_tolerance=12.0)


def again(build, tag):
    """Parse, write, parse again, write again."""
    def run(c):
        f, settings = build(c)
        with L.own_pictures():
            page = L.parse(f, **settings)
            doc0, a = read(page)
            tables0 = page.extract_tables()
            if c.between:
                page.parse(dict(OTHER))
            page.parse(dict(settings))
            doc1, b = read(page)
            same(c, a, b, tag)
            c.check(blobs(doc0, a) == blobs(doc1, b), f'{tag}: pictures change')
            same(c, tables0, page.extract_tables(), f'{tag}: extracted tables')
            doc2, d = read(page)
            same(c, b, d, f'{tag} written twice')
        c.observe([D.text(a), D.text(b)])
        S.cover(c, a)
    return run


def pages(n, fail):
    def page(i):
        def on_load(p):
            if fail() == i:
                raise RuntimeError('planned failure')
        draw = lambda: L.dtable((90, 250, 300), (390, 420), width=2.0) + [L.dfill(100, 101, 160, 111, fill=(1.0, 1.0, 0.0))]
        return L.FakePage(i, 500 + 10 * i, 800, drawings=draw, on_load=on_load,
                          content=lambda: [L.block([L.tline(f'x{i}', 100, 100, 160, 112)]), L.block([L.tline(f'in{i}', 100, 400, 160, 412)]),
                                           L.block([L.tline(f'p{i}', 60, 500, 160, 512)]), L.block([L.tline(f'q{i}', 260, 500, 290, 512)]),
                                           L.image((80, 600, 120, 640), b'pic'), L.block([L.tline(f'r{i}', 60, 615, 160, 627)])])
    return [page(i) for i in range(n)]


SETTINGS = ({}, dict(max_border_width=0.5), dict(extract_stream_table=True), dict(page_margin_factor_top=0.1, lines_left_aligned_threshold=30.0))


def history(c):
    """Any earlier call before a conversion or extraction of any pages."""
    from pdf2docx import Converter
    n = c.n
    fail = [None]
    ops = ('convert', 'extract', 'parse', 'raise')
    steps = []
    for k in range(c.steps):
        op = c.choice(f'op{k}', ops)
        kw = c.choice(f'settings{k}', range(len(SETTINGS)))
        start = c.int(f'start{k}', 0, n - 1)
        steps.append((op, kw, start))
    last = c.choice('last', ('convert', 'extract'))
    kw = c.choice('settings', range(len(SETTINGS)))
    start = c.int('start', 0, n - 1)

    def final(cv, saved):
        given = dict(SETTINGS[kw])
        if last == 'extract':
            got = cv.extract_tables(start=start, kwargs=given)
        else:
            cv.convert(L.OUT, start=start, kwargs=given)
            got = D.pages(saved[-1][1])
        return got
    with L.own_pictures():
        with L.single_doc(pages(n, lambda: None)) as saved:
            want = final(Converter('/nonexistent-verif/in.pdf'), saved)
        with L.single_doc(pages(n, lambda: fail[0])) as saved:
            cv = Converter('/nonexistent-verif/in.pdf')
            for op, k, s in steps:
                given = dict(SETTINGS[k])
                if op == 'convert':
                    cv.convert(L.OUT, start=s, kwargs=given)
                elif op == 'extract':
                    cv.extract_tables(start=s, kwargs=given)
                elif op == 'parse':
                    cv.parse([i for i in range(n) if c.true(i >= s)], given)
                else:
                    fail[0] = n - 1
                    cv.parse(None, given)
                    fail[0] = None
            got = final(cv, saved)
    hist = ', '.join(op for op, _, _ in steps)
    same(c, want, got, f'{last} after {hist}')
    c.observe(str(len(got)))
    c.cover(last)


def settings(c):
    """The settings given are the callers': they are not modified, and default ones are not shared."""
    from pdf2docx.page.Page import Page
    f, _ = S.vertical(c)
    with L.own_pictures():
        k = c.choice('settings', range(len(SETTINGS)))
        given = dict(SETTINGS[k])
        L.parse(f, **given)
        p = Page(f)
        p.parse(given)
        c.check(given == SETTINGS[k], 'the settings passed by the caller are modified')
        fresh = Page(f)
        fresh.parse()
        before = dict(Page(f).settings)
        p.settings['max_border_width'] = -1
        c.check(before == Page(f).settings, 'settings of one page leak to others')
    c.observe(len(given))


LONG = ('text', 'text_row', 'lattice', 'cell')
HARNESSES = [
    *[Harness(n, again(build, n), bounds + ('' if n in LONG else '; parsed again after being parsed with other settings'), quick=dict(between=n not in LONG, **p),
              thorough=dict(between=True, **p), covers=covers)
      for n, (build, bounds, p, covers) in S.BUILDERS.items()],
    Harness('history', history, 'any sequence of earlier calls, any settings, any first page', quick=dict(n=2, steps=1), thorough=dict(n=2, steps=2),
            covers=['convert', 'extract']),
    Harness('settings', settings, 'every settings value', quick={}),
]
