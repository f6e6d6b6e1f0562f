"""C16: paragraph indents, tab stops and breaks reproduce the horizontal positions."""
from symx.harness import Harness
from checks import docxread as D
from checks import lib as L

NOTE = ('Pages (and ruled cells) with a paragraph of lines at any horizontal place; an oracle lays out the written paragraph '
        '(indents, first-line indent, tab stops, tabs, breaks, alignment) and compares the start or end of every line with its place on the page.')
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'text is as wide in the docx as on the page',
               'a row that is not followed by a break wraps before the next row',
               'undecided if a tab stop coincides (1.1 pt, as offsets below 1 pt are not reproduced) with the end of the text before a tab']
TOL = 0.3       # rounding of coordinates (0.1), indents (0.05) and margins
INFERRED = 1.0  # borders inferred between text may be off by that much
ALIGN = 1.0     # lines_left_aligned_threshold, lines_right_aligned_threshold
CENTRE = 2.0    # lines_center_aligned_threshold
BREAK = 0.1     # line_free_space_ratio_threshold


class Item:
    """A line: its token, physical row and extent along the text."""

    def __init__(self, tok, row, a, b):
        self.tok, self.row, self.a, self.b = tok, row, a, b


def containers(items, base, end, tol=TOL):
    """[(paragraphs, left edge, right edge)] of the page body and of every cell, from what is written."""
    yield [b for b in items if b.kind == 'p'], base, end, tol
    for t in items:
        if t.kind != 't':
            continue
        for row in t.rows:
            x = base + (t.indent or 0)
            for cl in row.cells:
                half = [(getattr(cl.borders.get(k), 'sz', 0) or 0) / 16 for k in ('start', 'end')]
                m = cl.margins or {}
                yield from containers(cl.content, x + half[0] + (m.get('start') or 0), x + cl.width - half[1] - (m.get('end') or 0),
                                      tol if cl.borders else tol + INFERRED)
                x = x + cl.width


def check(c, body, sec, items):
    """items: the lines in reading order."""
    groups, where = [], {}
    for ps, base, end, tol in containers(body, sec.left, sec.width - sec.right):
        for p in ps:
            for it in items:
                if it.tok in p.text:
                    c.check(it.tok not in where, f'line {it.tok!r} is written several times')
                    where[it.tok] = p
            its = [it for it in items if where.get(it.tok) is p]
            if its:
                groups.append((p, its, base, end, tol))
    for it in items:
        c.check(it.tok in where, f'line {it.tok!r} is not written')
    for g in groups:
        one(c, *g)


def one(c, p, its, base, end, tol):
    left, right, first = p.left or 0, p.right or 0, p.first or 0
    x0, x1 = c.min(*[i.a for i in its]), c.max(*[i.b for i in its])
    rows = []
    for i in its:
        if not rows or rows[-1][0].row != i.row:
            rows.append([])
        rows[-1].append(i)
    starts, ends = [r[0].a for r in rows], [r[-1].b for r in rows]
    breaks(c, p, rows, x0, x1)
    c.check(c.both(left >= -0.05, right >= -0.05, left + first >= -0.05), f'negative indent')
    c.cover(p.align)
    if p.tabs:
        c.check(p.align == 'left', f'tab stops in a paragraph aligned {p.align}')
        c.check(c.near(base + left + c.min(first, 0), x0, tol), f'left edge of a paragraph with tab stops moves')
        for it in its:
            c.check(c.implies(it.a - x0 > 1.1, c.either(*[c.near(base + t, it.a, tol) for t in p.tabs])),
                    f'no tab stop at the start of a line')
        tabbed(c, p, rows, base, left, first, tol)
        return
    if p.align in ('left', 'both'):
        lead = starts[0]
        if len(rows) > 1:
            for s in starts[1:]:
                c.check(c.near(base + left, s, ALIGN + tol), f'a row of a paragraph aligned {p.align} moves horizontally')
            d = lead - starts[1]
            same = c.both(*[s == starts[1] for s in starts[1:]], c.either(d == 0, d > ALIGN + tol, d < -ALIGN - TOL))
            c.check(c.implies(same, c.near(base + left, starts[1], tol)), f'left edge of a paragraph aligned {p.align} moves')
            c.check(c.implies(same, c.near(base + left + first, lead, tol)), f'first row of a paragraph aligned {p.align} moves horizontally')
            c.check(c.near(base + left + first, lead, ALIGN + tol), f'first row of a paragraph aligned {p.align} moves horizontally')
            c.cover('indented' if c.true(lead > starts[1] + 3) else 'hanging' if c.true(lead < starts[1] - 3) else 'block')
        else:
            c.check(c.near(base + left + first, lead, tol), f'left edge of a single row moves')
    if p.align in ('right', 'both'):
        c.check(c.near(end - right, x1, tol), f'right edge of a paragraph aligned {p.align} moves')
    if p.align == 'center':
        mid = (base + left + first + end - right) / 2
        for r, a, b in zip(rows, starts, ends):
            c.check(c.near(mid, (a + b) / 2, 2 * CENTRE + tol), f'a centred row moves horizontally')


def breaks(c, p, rows, x0, x1):
    """No break within a row or after the last one; a break after a row that leaves distinct free space."""
    text = p.text
    c.check(not text.endswith('\n'), f'a break follows the last line')
    for k, r in enumerate(rows):
        a = text.index(r[0].tok)
        b = text.index(r[-1].tok) + len(r[-1].tok)
        c.check('\n' not in text[a:b], f'lines of a row are separated by a break')
        if k + 1 < len(rows):
            n = text.index(rows[k + 1][0].tok)
            c.check(n >= b, f'rows out of order')
            broken = '\n' in text[b:n]
            free = r[0].a - x0 if p.align == 'right' else x1 - r[-1].b
            if not broken:
                c.check(free <= BREAK * (x1 - x0) + 0.3, f'no break after a row that leaves free space')
            c.cover('broken' if broken else 'unbroken')


def tabbed(c, p, rows, base, left, first, tol):
    """Lay out the rows with their tabs; starts of lines within 1 pt."""
    stops = list(p.tabs)
    text = p.text
    at = 0
    for k, r in enumerate(rows):
        pos = left + (first if k == 0 else 0)
        for it in r:
            n = text.index(it.tok)
            for ch in text[at:n]:
                if ch == '\n':
                    pos = left
                if ch != '\t':
                    continue
                if any(c.true(c.near(s, pos, 1.1)) for s in stops):
                    c.cover('undecided')
                    return
                ahead = [s for s in stops if c.true(s > pos)]
                c.check(ahead, f'a tab behind the last tab stop')
                pos = c.min(*ahead)
                c.cover('tab')
            c.check(c.near(base + pos, it.a, 1.0 + tol), f'tabs do not lead a line to its place')
            pos = pos + (it.b - it.a)
            at = n + len(it.tok)


def shape(c, shape, lo, hi, y=100, vertical=False, gapmin=0):
    """Lines of a block: shape = number of lines in each row; any extents in [lo, hi].  Items and line dicts."""
    items, lines = [], []
    k = 0
    for r, n in enumerate(shape):
        x = c.real(f's{r}', lo, lo + c.spread)
        for j in range(n):
            if j:
                x = x + c.real(f'g{k}', gapmin, 40)
            w = c.real(f'w{k}', 20, (hi - lo) / n) if [r, j] in c.wide else 20 + 7 * r + 3 * j
            items.append(Item('abcdefgh'[k] * 2, r, x, x + w))
            c.assume(x + w <= hi)
            lines.append((items[-1].tok, x, y + 14 * r, x + w, y + 14 * r + 12))
            x = x + w
            k += 1
    return items, lines


def horizontal(lines):
    return [L.tline(t, a, y0, b, y1) for t, a, y0, b, y1 in lines]


def page(c):
    items, lines = shape(c, c.shape, 100, 420, gapmin=2.1)
    top = c.real('top', 60, 100) if c.margin else 60
    f = L.FakePage(0, 600, 800, content=lambda: [L.block([L.tline('top', top, 40, 540, 52)]), L.block(horizontal(lines)),
                                                 L.block([L.tline('end', 60, 300, 540, 312)])])
    p = L.parse(f)
    (sec, body), = D.pages(L.docx_of([p]))
    c.observe(D.text(body))
    check(c, body, sec, items)


def cell(c):
    """The block in a ruled cell with borders of any width."""
    items, lines = shape(c, c.shape, 105, 285, y=210, gapmin=2.1)
    w = c.real('border', 0.5, 4) if c.margin else 1.0
    f = L.FakePage(0, 600, 800, drawings=lambda: L.dtable((100, 300, 400), (200, 280), width=w),
                   content=lambda: [L.block(horizontal(lines)), L.block([L.tline('end', 60, 300, 540, 312)])])
    p = L.parse(f)
    (sec, body), = D.pages(L.docx_of([p]))
    c.observe(D.text(body))
    tables = [b for b in body if b.kind == 't']
    c.check(len(tables) == 1, 'the ruled cells are not one table')
    check(c, body, sec, items)


def vertical(c):
    """Text from bottom to top in a ruled cell: indents and tabs are measured from the bottom of the cell."""
    items, lines = shape(c, c.shape, 5, 185, y=110, gapmin=2.1)
    w = c.real('border', 0.5, 4) if c.margin else 1.0
    vl = [L.tline(t, y0, 400 - b, y1, 400 - a, vertical=True) for t, a, y0, b, y1 in lines]
    f = L.FakePage(0, 600, 800, drawings=lambda: L.dtable((100, 300, 400), (200, 400), width=w),
                   content=lambda: [L.block(vl), L.block([L.tline('end', 60, 430, 540, 442)])])
    p = L.parse(f)
    (sec, body), = D.pages(L.docx_of([p]))
    c.observe(D.text(body))
    t = [b for b in body if b.kind == 't'][0]
    cl = t.rows[0].cells[0]
    if any(b.kind == 't' for b in cl.content):
        c.cover('table')
    else:
        c.check(cl.dir == 'btLr', 'vertical text in a cell without text direction')
    for ps, base, end, tol in containers(cl.content, w / 2, t.rows[0].height - w / 2):
        for p in ps:
            its = [it for it in items if it.tok in p.text]
            if its and not any(b.kind == 't' for b in cl.content):
                one(c, p, its, base, end, tol)
    for it in items:
        c.check(D.text(cl.content).count(it.tok) == 1, f'line {it.tok!r} is not written once')


HARNESSES = [
    Harness('single', page, 'one line of any place and width', quick=dict(shape=[1], spread=200, wide=[[0, 0]], margin=True), covers=['left', 'right', 'center']),
    Harness('rows', page, 'a paragraph of rows of any starts and ends', quick=dict(shape=[1, 1, 1], spread=40, wide=[[0, 0], [1, 0]], margin=False),
            thorough=dict(shape=[1, 1, 1, 1], spread=40, wide=[[0, 0], [1, 0], [2, 0]], margin=False),
            covers=['left', 'right', 'center', 'both', 'indented', 'hanging', 'block', 'broken', 'unbroken']),
    Harness('two', page, 'a paragraph of two rows of any starts and ends', quick=dict(shape=[1, 1], spread=200, wide=[[0, 0], [1, 0]], margin=True)),
    Harness('tabs', page, 'rows of two lines with any gaps', quick=dict(shape=[2, 2], spread=60, wide=[], margin=False),
            thorough=dict(shape=[2, 1, 3], spread=60, wide=[[0, 0]], margin=False), covers=['tab']),
    Harness('cell', cell, 'a paragraph in a ruled cell with borders of any width', quick=dict(shape=[1, 1, 1], spread=40, wide=[], margin=True),
            thorough=dict(shape=[1, 1, 1], spread=40, wide=[[1, 0]], margin=True)),
    Harness('cell_tabs', cell, 'rows of several lines in a ruled cell', quick=dict(shape=[2, 2], spread=15, wide=[], margin=False),
            thorough=dict(shape=[2, 1, 2], spread=30, wide=[], margin=False), covers=['tab']),
    Harness('cell_three', cell, 'a row of three lines and a row of one or two in a ruled cell', quick=dict(shape=[3, 1], spread=20, wide=[], margin=False),
            thorough=dict(shape=[3, 2], spread=20, wide=[], margin=False), covers=['tab']),
    Harness('vertical', vertical, 'a vertical paragraph in a ruled cell', quick=dict(shape=[1, 1, 1], spread=40, wide=[[1, 0]], margin=False),
            covers=['left', 'right', 'both', 'indented', 'hanging']),
    Harness('vertical_tabs', vertical, 'vertical rows of several lines in a ruled cell', quick=dict(shape=[2, 1], spread=30, wide=[], margin=False), covers=['tab']),
]
