"""C15: paragraph spacing reproduces the vertical positions of the page."""
from symx.harness import Harness
from checks import docxread as D
from checks import lib as L

NOTE = ('Pages of paragraphs and tables at any vertical place; an oracle lays out the written document from top to bottom (space before, rows, '
        'exact line spacing, space after, table rows and borders, nested cells) and compares the bottom of every paragraph with the page.')
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'a table takes half of its outer borders above and below, as the code documents',
               'no rows are added or lost by wrapping', 'rounding of 0.05 pt per written value adds up']
STEP = 0.07     # rounding of one written value


class Item:
    """A line: token, number of its row on the page, extent across the rows."""

    def __init__(self, tok, row, a, b):
        self.tok, self.row, self.a, self.b = tok, row, a, b


class Layout:
    """Bottom of every paragraph that holds items, from what is written."""

    def __init__(self, c, items):
        self.c, self.items, self.out = c, items, []

    def border(self, cell, side):
        b = cell.borders.get(side)
        return (b.sz or 0) / 16 if b is not None else 0

    def run(self, blocks, y, tol):
        for k, b in enumerate(blocks):
            if b.kind == 'p' and not b.text and b.rule != 'exact':
                # nothing but default height: allowed where nothing follows
                self.c.check(not D.text(blocks[k:]), 'an empty paragraph of default height is above the text')
                break
            if b.kind == 'p':
                y, tol = self.paragraph(b, y, tol)
            elif b.kind == 't':
                y, tol = self.table(b, y, tol)
        return y, tol

    def paragraph(self, p, y, tol):
        c = self.c
        c.check((p.before or 0) >= 0, 'negative space before a paragraph')
        c.check((p.after or 0) >= 0, 'negative space after a paragraph')
        its = [i for i in self.items if i.tok in p.text]
        n = len({i.row for i in its}) or 1
        c.check(p.rule == 'exact', f'line spacing of {p.text!r} is not exact')
        c.check(p.line > 0, f'line spacing of {p.text!r} is not positive')
        y = y + (p.before or 0) + n * p.line
        tol += STEP * (n + 1)
        if its:
            self.out.append((p, its, y, tol))
        return y + (p.after or 0), tol + STEP

    def table(self, t, y, tol):
        c = self.c
        half = self.border(t.rows[0].cells[0], 'top')
        y = y + half
        tops = [y]
        for r in t.rows:
            c.check(r.rule == 'exact', 'row height is not exact')
            tops.append(tops[-1] + r.height)
        for k, r in enumerate(t.rows):
            for cl in r.cells:
                if cl.vmerge == 'continue':
                    continue
                if cl.dir:
                    continue
                m = cl.margins or {}
                self.run(cl.content, tops[k] + self.border(cl, 'top') + (m.get('top') or 0), tol + STEP * (k + 2))
        return tops[-1] + half, tol + STEP * (len(t.rows) + 1)

    def check(self, extra=0):
        c = self.c
        seen = []
        for p, its, y, tol in self.out:
            bottom = c.max(*[i.b for i in its])
            c.check(c.near(y, bottom, tol + extra), f'the paragraph of {its[0].tok!r} does not end where it did')
            seen += [i.tok for i in its]
        c.check(sorted(seen) == sorted(i.tok for i in self.items), f'lines written {seen}')


def parse(c, items, blocks, extra=0, drawings=lambda: [], **settings):
    f = L.FakePage(0, 600, 800, content=lambda: [L.block(L.tline('first', 60, 40, 540, 52))] + blocks() + [L.block(L.tline('last', 60, 700, 540, 712))],
                   drawings=drawings)
    p = L.parse(f, **settings)
    (sec, body), = D.pages(L.docx_of([p]))
    c.observe(D.text(body))
    lay = Layout(c, [Item('first', -1, 40, 52)] + items + [Item('last', 99, 700, 712)])
    lay.run(body, sec.top, 0.1)
    lay.check(extra)
    c.cover('table' if any(b.kind == 't' for b in body) else 'text')
    return body


def stack(c, spec, y, x0=60, x1=540, gap=(0, 60), tag=''):
    """Blocks of rows below each other: spec = rows per block; heights and gaps are symbolic."""
    items, blocks = [], []
    k = 0
    for bno, rows in enumerate(spec):
        y = y + c.real(f'{tag}gap{bno}', *gap)
        lines = []
        for r in range(rows):
            h = c.real(f'{tag}h{k}', 6, 30) if k in c.high else 12
            if r:
                y = y + (c.real(f'{tag}lead{k}', 0, 15) if k in c.lead else 2)
            it = Item(tag + 'abcdefghij'[k] * 2, k, y, y + h)
            items.append(it)
            lines.append((it.tok, x0, y, x1 - 30 * (r == rows - 1), y + h))
            y = y + h
            k += 1
        blocks.append(lines)
    return items, blocks, y


def made(blocks):
    return [L.block([L.tline(*ln) for ln in b]) for b in blocks]


def paragraphs(c):
    """Paragraphs below each other."""
    items, blocks, y = stack(c, c.spec, 60)
    c.assume(y <= 690)
    parse(c, items, lambda: made(blocks))


def row(c):
    """Lines of different height side by side in a row."""
    a, h = c.real('a', -6, 6), c.real('h', 8, 20)
    y = 100
    left = Item('aa', 0, y, y + 12)
    right = Item('bb', 0, y + a, y + a + h)
    items = [left, right]
    lines = [L.tline('aa', 60, y, 250, y + 12), L.tline('bb', 253, y + a, 540, y + a + h)]
    if c.second:
        items.append(Item('cc', 1, 125, 137))
        lines.append(L.tline('cc', 60, 125, 500, 137))
    c.assume(c.no(c.near(a, 0, 0.05)) if c.uneven else True)
    # lines of one row
    c.assume(c.both(a + h / 2 > 1, a + h / 2 < 11))
    parse(c, items, lambda: [L.block(lines)])


def table(c):
    """A paragraph, a ruled table with text, a paragraph; borders of any width."""
    w = c.real('w', 0.5, 6)
    g1, g2, h = c.real('g1', 4, 40), c.real('g2', 4, 40), c.real('h', 20, 60)
    t0 = 112 + g1
    t1, t2 = t0 + 30, t0 + 30 + h
    items = [Item('aa', 0, 100, 112)]
    blocks = [[('aa', 60, 100, 540, 112)]]
    d = c.real('d', 4, 10)
    items.append(Item('in', 1, t0 + d, t0 + d + 12))
    blocks.append([('in', 70, t0 + d, 120, t0 + d + 12)])
    items.append(Item('zz', 2, t2 + g2, t2 + g2 + 12))
    blocks.append([('zz', 60, t2 + g2, 540, t2 + g2 + 12)])
    parse(c, items, lambda: made(blocks), drawings=lambda: L.dtable((60, 300, 540), (t0, t1, t2), width=w))


def first(c):
    """A ruled table at the top of the page, and another one below it."""
    t0 = c.real('t0', 30, 90)
    g = c.real('g', 6, 40)
    u0 = t0 + 60 + g
    items = [Item('in', 1, t0 + 10, t0 + 22), Item('un', 2, u0 + 10, u0 + 22), Item('last', 99, 700, 712)]
    blocks = [[('in', 70, t0 + 10, 120, t0 + 22)], [('un', 70, u0 + 10, 120, u0 + 22)], [('last', 60, 700, 540, 712)]]
    f = L.FakePage(0, 600, 800, content=lambda: made(blocks),
                   drawings=lambda: L.dtable((60, 300, 540), (t0, t0 + 30, t0 + 60)) + L.dtable((60, 200, 540), (u0, u0 + 30, u0 + 60)))
    (sec, body), = D.pages(L.docx_of([L.parse(f)]))
    c.observe(D.text(body))
    c.check([b.kind for b in body if b.kind == 't'] == ['t', 't'], 'not two tables')
    lay = Layout(c, items)
    lay.run(body, sec.top, 0.1)
    lay.check()


def cell(c):
    """Paragraphs in a ruled cell."""
    w = c.real('w', 0.5, 4)
    items, blocks, y = stack(c, c.spec, 204, 106, 290, gap=(3, 40))
    c.assume(y <= 390)
    parse(c, items, lambda: made(blocks), drawings=lambda: L.dtable((100, 300, 400), (200, 400), width=w))


def nested(c):
    """Paragraphs before and after a table in a ruled cell."""
    g, h = c.real('g', 6, 30), c.real('h', 6, 30)
    t0 = 226 + g
    items = [Item('aa', 0, 214, 226), Item('in', 1, t0 + 6, t0 + 18), Item('bb', 2, t0 + 60 + h, t0 + 72 + h)]
    blocks = [[('aa', 106, 214, 290, 226)], [('in', 126, t0 + 6, 150, t0 + 18)], [('bb', 106, t0 + 60 + h, 290, t0 + 72 + h)]]
    parse(c, items, lambda: made(blocks), drawings=lambda: L.dtable((100, 300, 400), (200, 400)) + L.dtable((120, 180, 260), (t0, t0 + 30, t0 + 60)))


def columns(c):
    """Two columns of text without ruling."""
    a, b = c.real('a', 0, 10), c.real('b', 14, 40)
    items = [Item('aa', 0, 200, 212), Item('bb', 1, 200 + a, 212 + a), Item('cc', 2, 200 + b, 212 + b), Item('dd', 3, 220 + b, 232 + b)]
    blocks = [[('aa', 60, 200, 200, 212)], [('bb', 340, 200 + a, 500, 212 + a)], [('cc', 60, 200 + b, 200, 212 + b)],
              [('dd', 340, 220 + b, 500, 232 + b)]]
    parse(c, items, lambda: made(blocks))


def close(c):
    """Two columns of text close to lines across the page."""
    g, h, a = c.real('g', 0.1, 12), c.real('h', 0.1, 12), c.real('a', 0, 10)
    y = 52 + g
    e = y + 60
    items = [Item('aa', 0, y, y + 12), Item('bb', 1, y + a, y + a + 12), Item('cc', 2, e - 12, e), Item('xx', 4, e + h, e + h + 12)]
    blocks = [[('aa', 60, y, 200, y + 12)], [('bb', 340, y + a, 500, y + a + 12)], [('cc', 60, e - 12, 200, e)],
              [('xx', 60, e + h, 540, e + h + 12)]]
    parse(c, items, lambda: made(blocks))


HARNESSES = [
    Harness('paragraphs', paragraphs, 'three paragraphs of one to three rows, any gaps, leading and heights', quick=dict(spec=[1, 3, 2], high=[0, 1, 4], lead=[2, 3, 5]), covers=['text']),
    Harness('row', row, 'a row of two lines of any height and offset', quick=dict(second=False, uneven=False), covers=['text']),
    Harness('row_second', row, 'the same followed by another row', quick=dict(second=True, uneven=False), covers=['text']),
    Harness('table', table, 'a ruled table between paragraphs, any gaps and border widths', quick={}, covers=['table']),
    Harness('first', first, 'ruled tables at the top and below each other', quick={}),
    Harness('cell', cell, 'paragraphs in a ruled cell', quick=dict(spec=[2, 1, 2], high=[0, 3], lead=[1]), covers=['table']),
    Harness('nested', nested, 'a table between paragraphs in a ruled cell', quick={}, covers=['table']),
    Harness('columns', columns, 'two columns of text', quick={}, covers=['table']),
    Harness('close', close, 'two columns of text close to lines across the page', quick={}, covers=['table']),
]
