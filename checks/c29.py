"""C29: what is written for a page fits on that page, what is written for a cell fits in that cell."""
from symx.harness import Harness
from checks import docxread as D
from checks import lib as L
from checks.c22 import png

NOTE = ('An oracle adds up what is written (space before and after, rows with their exact line spacing, pictures, table rows, outer borders, nested '
        'tables) and compares it with the height between the margins of the section and with the exact height of table cells.')
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'rounding of 0.03 pt per written height and of 0.05 pt per row of a paragraph adds up',
               'the paragraph python-docx adds for a section break is not counted']
STEP = 0.03    # rounding of a written height to twips


class Flow:
    """Height taken by written blocks; n = number of rows of each token."""

    def __init__(self, c, rows):
        self.c, self.rows = c, rows

    def blocks(self, blocks, where, page=False):
        c, h, tol = self.c, 0, 0
        tables = [b for b in blocks if b.kind == 't']
        for k, b in enumerate(blocks):
            if b.kind == 'p' and b.sect is not None and not b.text:
                continue
            if b.kind == 't' and k and blocks[k - 1].kind == 't':
                c.fail(f'two tables without a paragraph between them {where}: they become one')
            a, t = self.paragraph(b, where) if b.kind == 'p' else self.table(b, page and b is tables[-1])
            h, tol = h + a, tol + t
        if blocks and blocks[-1].kind == 't':
            c.fail(f'nothing after the last table {where}')
        return h, tol

    def paragraph(self, p, where):
        c = self.c
        pics = [x for r in p.runs for x in r.pics if x.inline]
        h = (p.before or 0) + (p.after or 0)
        c.check(c.both((p.before or 0) >= 0, (p.after or 0) >= 0), f'negative paragraph space {where}')
        n = len({r for tok, r in self.rows.items() if tok in p.text}) or 1
        if pics:
            c.check(p.rule != 'exact', f'a picture in a paragraph of exact line spacing is cut {where}')
            return h + c.max(*[x.cy for x in pics]), 3 * STEP
        c.check(p.rule == 'exact', f'a paragraph of unknown height {where}: {p.text!r}')
        return h + n * p.line, 0.05 * (n - 1) + 2 * STEP

    def table(self, t, last=False):
        c = self.c
        half = [max([(cl.borders[s].sz or 0) / 16 for cl in r.cells if s in cl.borders] or [0]) for r, s in ((t.rows[0], 'top'), (t.rows[-1], 'bottom'))]
        heights = []
        for r in t.rows:
            c.check(r.rule == 'exact', 'a table row of unknown height')
            c.check(r.height > 0, 'a table row without height')
            heights.append(r.height)
        for i, r in enumerate(t.rows):
            for cl in r.cells:
                if cl.vmerge == 'continue' or cl.dir or not cl.content:
                    continue
                if not D.text(cl.content) and not any(x.pics for x in D.all_runs(cl.content)):
                    continue
                h = heights[i]
                if cl.vmerge == 'restart':
                    for k in range(i + 1, len(t.rows)):
                        below = [x for x in t.rows[k].cells if x.col == cl.col]
                        if not below or below[0].vmerge != 'continue':
                            break
                        h = h + heights[k]
                got, tol = self.blocks(cl.content, 'in a cell')
                m = cl.margins or {}
                got = got + (m.get('top') or 0) + (m.get('bottom') or 0)
                if last and i + (cl.vmerge == 'restart') >= len(t.rows) - 1:
                    tol += 1    # taken from the last row for the paragraph behind the table
                c.check(got <= h + tol + STEP * len(t.rows), f'{D.text(cl.content)!r} does not fit in its cell')
        total = half[0] + half[1]
        for h in heights:
            total = total + h
        return total, (len(heights) + 2) * STEP


def judge(c, fakes, rows, **settings):
    """Parse the pages, write one document, judge the heights of its sections."""
    with L.own_pictures():
        doc = L.docx_of([L.parse(f, **settings) for f in fakes])
    got = D.pages(doc)
    c.check(len(got) == len(fakes), f'{len(got)} sections for {len(fakes)} pages')
    for k, (f, (sec, body)) in enumerate(zip(fakes, got)):
        c.check(k == 0 or sec.type in (None, 'nextPage'), 'a page does not start on a new page')
        h, tol = Flow(c, rows).blocks([b for b in body], 'of the page', True)
        c.check(h <= sec.height - sec.top - sec.bottom + tol + 3 * STEP, f'the content of page {k + 1} does not fit on it')
    c.observe([D.text(b) for _, b in got])
    return got


def fake(W, H, lines=lambda: [], pics=lambda: [], drawings=lambda: []):
    return L.FakePage(0, W, H, content=lambda: [L.block(ln) for ln in lines()] + pics(), drawings=drawings)


def text(c):
    """Three lines anywhere on a page up to its very end."""
    y, g, e = c.real('y', 0, 300), c.real('g', 12, 300), c.real('e', 0, 200)
    h = c.real('h', 8, 40)
    H = y + 12 + g + h + e
    c.assume(H >= 100)
    f = fake(600, H, lambda: [L.tline('aa', 60, y, 540, y + 12), L.tline('bb', 60, y + g, 500, y + g + 12), L.tline('cc', 60, y + 12 + g, 500, y + 12 + g + h)])
    judge(c, [f], dict(aa=0, bb=1, cc=2))


def rows(c):
    """A paragraph of several rows at the end of a page."""
    y, e = c.real('y', 20, 200), c.real('e', 0, 100)
    out, n = [], {}
    b = y
    for k in range(c.n):
        h = c.real(f'h{k}', 8, 24) if k in c.high else 12
        if k:
            b = b + (c.real(f'l{k}', -2, 12) if k in c.lead else 3)
        tok = 'abcdef'[k] * 2
        out.append((tok, 60, b, 540 - 20 * (k == c.n - 1), b + h))
        n[tok] = k
        b = b + h
    f = fake(600, b + e, lambda: [[L.tline(*o) for o in out]])
    judge(c, [f], n)


def tables(c):
    """A ruled table at the end of a page, after a line, a table, or nothing."""
    w = c.real('w', 0.5, 6)
    g, e, h = c.real('g', 3, 60), c.real('e', 0, 100), c.real('h', 24, 80)
    t0 = 60 + g + w
    b = t0 + 30 + h
    c.assume(e >= w / 2)
    n = dict(aa=0, ii=1, jj=2)
    lines = [('ii', 70, t0 + 8, 120, t0 + 20), ('jj', 310, t0 + 36, 360, t0 + 48)]
    draw = lambda: L.dtable((60, 300, 540), (t0, t0 + 30, b), width=w)
    more = lambda: []
    if c.what == 'line':
        lines.append(('aa', 60, 48, 540, 60))
    elif c.what == 'table':
        more = lambda: L.dtable((60, 300, 540), (20, 60), width=0.5)
        lines.append(('aa', 70, 30, 100, 42))
    f = fake(600, b + e, lambda: [L.tline(*o) for o in lines], drawings=lambda: draw() + more())
    (_, body), = judge(c, [f], n)
    c.check(sum(x.kind == 't' for x in body) == 1 + (c.what == 'table'), 'tables')
    c.cover('table')


def below(c):
    """A line below a ruled table at the end of the page."""
    g, e, w = c.real('g', 2, 60), c.real('e', 0, 60), c.real('w', 0.5, 4)
    f = fake(600, 272 + g + e, lambda: [L.tline('ii', 70, 210, 120, 222), L.tline('zz', 60, 260 + g, 540, 272 + g)],
             drawings=lambda: L.dtable((60, 300, 540), (200, 230, 260), width=w))
    judge(c, [f], dict(ii=0, zz=1))


def picture(c):
    """A picture and a line above or below it."""
    g, e, h = c.real('g', 1, 100), c.real('e', 0, 100), c.real('h', 20, 300)
    if c.last:
        f = fake(600, 60 + g + h + e, lambda: [L.tline('aa', 60, 48, 540, 60)], lambda: [L.image((60, 60 + g, 300, 60 + g + h), data=png(1))])
    else:
        f = fake(600, 40 + h + g + 12 + e, lambda: [L.tline('aa', 60, 40 + h + g, 540, 52 + h + g)], lambda: [L.image((60, 40, 300, 40 + h), data=png(1))])
    got = judge(c, [f], dict(aa=0))
    c.check(sum(len(r.pics) for r in D.all_runs(got[0][1])) == 1, 'the picture is not written once')


def cells(c):
    """Rows of text in a ruled cell up to its very borders."""
    w = c.real('w', 0.5, 6) if c.border else 0.5
    a, h, d, g = c.real('a', 0.5, 20), c.real('h', 8, 30), c.real('d', 0.5, 10), c.real('g', 12, 40)
    y = 200 + w / 2 + a
    b = y + g + h
    end = b + d + w / 2
    lines = [('aa', 66, y, 290, y + 12), ('bb', 66, y + g, 280, b), ('xx', 306, 204, 400, 214)]
    ys = (200, 250, end) if c.merged else (200, end)
    if c.merged:
        c.assume(end >= 275)
    draw = L.dtable((60, 300, 540), (200, end), width=w)
    if c.merged:
        draw = draw + [L.dline(300, 250, 540, 250, w)]
    f = fake(600, 1000, lambda: [L.tline(*o) for o in lines], drawings=lambda: draw)
    got = judge(c, [f], dict(aa=0, bb=1, xx=2))
    t = [x for x in got[0][1] if x.kind == 't']
    c.check(len(t) == 1 and len(t[0].rows) == len(ys) - 1, 'rows of the table')


def nested(c):
    """A table in a cell, with or without text above and below it."""
    g, h, e = c.real('g', 3, 40), c.real('h', 20, 60), c.real('e', 2, 40)
    t0 = 200 + g + (20 if 'above' in c.what else 0)
    t1 = t0 + h
    end = t1 + e + (20 if 'below' in c.what else 0)
    lines = [('ii', 130, t0 + 4, 150, t0 + 16)]
    if 'above' in c.what:
        lines.append(('aa', 106, 206, 290, 218))
    if 'below' in c.what:
        lines.append(('bb', 106, t1 + e + 4, 290, t1 + e + 16))
    f = fake(600, 1000, lambda: [L.tline(*o) for o in lines],
             drawings=lambda: L.dtable((100, 300, 400), (200, end)) + L.dtable((120, 180, 260), (t0, t1)))
    got = judge(c, [f], dict(aa=0, ii=1, bb=2))
    t = [x for x in got[0][1] if x.kind == 't']
    c.check(len(t) == 1 and [x.kind for x in t[0].rows[0].cells[0].content].count('t') == 1, 'not a table in a table')


def columns(c):
    """Two columns of text to the end of the page."""
    a, b, e = c.real('a', 0, 10), c.real('b', 14, 60), c.real('e', 0, 60)
    f = fake(600, 232 + b + e, lambda: [L.tline('aa', 60, 200, 200, 212), L.tline('bb', 340, 200 + a, 500, 212 + a),
                                       L.tline('cc', 60, 200 + b, 200, 212 + b), L.tline('dd', 340, 220 + b, 500, 232 + b)])
    judge(c, [f], dict(aa=0, bb=1, cc=2, dd=3))


def close(c):
    """Columns close to a line across the page and to the end of the page."""
    g, a, e = c.real('g', 0.1, 12), c.real('a', 0, 10), c.real('e', 0, 20)
    y = 60 + g
    f = fake(600, y + 60 + e, lambda: [L.tline('xx', 60, 48, 540, 60), L.tline('aa', 60, y, 200, y + 12), L.tline('bb', 340, y + a, 500, y + a + 12),
                                       L.tline('cc', 60, y + 48, 200, y + 60)])
    judge(c, [f], dict(aa=0, bb=1, cc=2, xx=3))


def pages(c):
    """Several pages, of which each ends with a line, a table, or has nothing on it."""
    fakes, n = [], {}
    for k in range(c.n):
        what = c.pick(f'what{k}', 0, 2)
        e = c.real(f'e{k}', 1, 90)
        tok = 'abc'[k] * 2
        n[tok] = k
        if what == 0:
            fakes.append(fake(600, 400, lambda e=e, tok=tok: [L.tline(tok, 60, 388 - e, 540, 400 - e)]))
        elif what == 1:
            fakes.append(fake(600, 400, lambda e=e, tok=tok: [L.tline(tok, 70, 360 - e, 100, 372 - e)],
                              drawings=lambda e=e: L.dtable((60, 300, 540), (340 - e, 380 - e, 400 - e))))
        else:
            fakes.append(fake(600, 400))
    for k, f in enumerate(fakes):
        f.number = k
    L.FakeDoc(fakes)
    judge(c, fakes, n)


HARNESSES = [
    Harness('text', text, 'three lines anywhere on a page of any height', quick={}),
    Harness('rows', rows, 'a paragraph of three rows of any heights and distances at the end of the page', quick=dict(n=3, high=[1], lead=[1, 2]),
            thorough=dict(n=4, high=[1, 2], lead=[1, 2, 3])),
    Harness('table_line', tables, 'a table of any border width at the end of a page after a line', quick=dict(what='line'), covers=['table']),
    Harness('table_table', tables, 'the same after a table', quick=dict(what='table'), covers=['table']),
    Harness('table_only', tables, 'the same after nothing', quick=dict(what=''), covers=['table']),
    Harness('below', below, 'a line below a table at the end of the page', quick={}),
    Harness('picture_last', picture, 'a picture below a line, any distances and heights', quick=dict(last=True)),
    Harness('picture_first', picture, 'a picture above a line, any distances and heights', quick=dict(last=False)),
    Harness('cell', cells, 'two rows of text in a cell up to its borders', quick=dict(border=True, merged=False)),
    Harness('merged', cells, 'the same in a cell of two rows of the table', quick=dict(border=False, merged=True)),
    Harness('nested', nested, 'a table in a cell', quick=dict(what='')),
    Harness('nested_above', nested, 'the same below text', quick=dict(what='above')),
    Harness('nested_below', nested, 'the same above text', quick=dict(what='below')),
    Harness('columns', columns, 'two columns of text at the end of the page', quick={}),
    Harness('columns_close', close, 'two columns of text close to a line across the page and the end of the page', quick={}),
    Harness('pages', pages, 'two pages ending with a line, a table, or empty', quick=dict(n=2), thorough=dict(n=3)),
]
