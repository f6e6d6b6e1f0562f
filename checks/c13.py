"""C13: text in a table region goes to the cell it lies in, once."""
from fractions import Fraction

from symx.harness import Harness
from checks import docxread as D
from checks import lib as L

NOTE = 'Full page parse and docx writing; ruled tables of up to 3 x 2 cells, up to three lines of one to three characters.'
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'lines lie in the table by 92 % or more, or by 88 % or less (not just at the 90 % limit)']


def ruled_tables(items):
    """All docx tables with a visible border, nested ones included."""
    for b in items:
        if b.kind == 't':
            if any(c.borders for r in b.rows for c in r.cells):
                yield b
            for r in b.rows:
                for c in r.cells:
                    yield from ruled_tables(c.content)


def cell_texts(t):
    """{(row, col): text} of the cells not hidden by a merge."""
    return {(i, c.col): ''.join(D.text(c.content).split()) for i, r in enumerate(t.rows) for c in r.cells
            if c.vmerge != 'continue'}


def length(c, a0, a1, b0, b1):
    """Length of the common part of two ranges."""
    return c.max(c.min(a1, b1) - c.max(a0, b0), 0)


def place(c, lines, cells, table, got, rest):
    """lines: [(text, box, vertical)], cells: {index: box}, got: {index: text}, rest: text outside the table."""
    everywhere = ''.join(got.values()) + rest
    for text, box, vertical in lines:
        for i, ch in enumerate(text):
            c.check(everywhere.count(ch) == 1, f'character {ch!r} is written {everywhere.count(ch)} times')
        x0, y0, x1, y1 = box
        dx, dy = length(c, x0, x1, table[0], table[2]), length(c, y0, y1, table[1], table[3])
        inside = c.true(c.both(dx >= 0.92 * (x1 - x0), dy >= 0.92 * (y1 - y0))) if c.axis is None else \
            c.true(dx >= 0.92 * (x1 - x0)) if c.axis == 'x' else c.true(dy >= 0.92 * (y1 - y0))
        if not inside:
            c.assume(c.either(dx <= 0.88 * (x1 - x0), dy <= 0.88 * (y1 - y0)))
            c.check(all(ch in rest for ch in text), f'line {text!r} is out of the table but written to a cell')
            c.cover('outside')
            continue
        n = len(text)
        for i, ch in enumerate(text):
            if vertical:
                h = (y1 - y0) / n
                b = (x0, y1 - h * (i + 1), x1, y1 - h * i)
            else:
                w = (x1 - x0) / n
                b = (x0 + w * i, y0, x0 + w * (i + 1), y1)
            for k, q in cells.items():
                fx, fy = length(c, b[0], b[2], q[0], q[2]), length(c, b[1], b[3], q[1], q[3])
                if c.axis == 'y':
                    main = fy * 2 > b[3] - b[1] + 0.2
                    main = c.both(main, fx * 2 > b[2] - b[0])
                else:
                    main = fx * 2 > b[2] - b[0] + 0.2
                    main = c.both(main, fy * 2 > b[3] - b[1])
                c.check(c.implies(main, ch in got.get(k, '')),
                        f'character {ch!r} lies in cell {k} but is written to {[j for j in got if ch in got[j]]}')
        # order within one cell
        for k, t in got.items():
            mine = [ch for ch in t if ch in text]
            c.check(mine == sorted(mine), f'characters of {text!r} out of order: {t!r}')
        c.cover('inside')


def run(c, lines, drawings, cells, table, one_block):
    def content():
        ls = [L.tline(t, *b, vertical=v) for t, b, v in lines]
        return [L.block(ls)] if one_block else [L.block(l) for l in ls]
    p = L.FakePage(0, 600, 800, drawings=drawings, content=content)
    items = D.body(L.docx_of([L.parse(p)]))
    ts = list(ruled_tables(items))
    c.check(len(ts) == 1, f'{len(ts)} ruled tables')
    if not ts:
        return
    got = cell_texts(ts[0])
    rest = ''.join(D.text(items).split())
    for t in got.values():
        if t:
            rest = rest.replace(t, '', 1)
    c.observe(sorted((str(k), v) for k, v in got.items()) + [rest])
    place(c, lines, cells, table, got, rest)


def grid(xs, ys):
    return {(i, j): (xs[j], ys[i], xs[j + 1], ys[i + 1]) for i in range(len(ys) - 1) for j in range(len(xs) - 1)}


def one_line(c):
    """One line of three characters anywhere along one axis, inside, across or beside a table of 2 x 2 cells."""
    xs, ys = (100, 200, 300), (200, 230, 260)
    x, w, y, h = 120, 60, 205, 12
    n = len(c.text)
    if c.axis == 'x':
        x, w = c.real('x', 20, 400), c.real('w', 6, 180, Fraction(n, 10))
    else:
        y, h = c.real('y', 150, 300), c.real('h', 4, 80, Fraction(n, 10) if c.vertical else Fraction(1, 10))
        if c.vertical:
            w = 12
    lines = [(c.text, (x, y, x + w, y + h), c.vertical)]
    run(c, lines, lambda: L.dtable(xs, ys), grid(xs, ys), (100, 200, 300, 260), True)


def two_lines(c):
    """Two lines in different rows, in one or two source blocks, over the columns of a table, and borders anywhere."""
    u = c.real('u', 130, 270)
    xs, ys = (100, u, 300), (200, 230, 260)
    x0, x1 = c.real('x0', 100, 250), c.real('x1', 100, 250)
    w = c.real('w', 10, 100, Fraction(1, 5))
    c.assume(x1 + w <= 300)
    lines = [('ab', (x0, 208, x0 + 40, 220), False), ('cd', (x1, 238, x1 + w, 250), False)]
    one = c.choice('one', (True, False))
    run(c, lines, lambda: L.dtable(xs, ys), grid(xs, ys), (100, 200, 300, 260), one)


def block_across(c):
    """Lines of one source block, of which some lie in the table and others above or below it."""
    xs, ys = (100, 200, 300), (200, 230, 260)
    y = c.real('y', 140, 310)
    lines = [('abc'[:c.n], (110, 208, 170, 220), False), ('de', (110, y, 170, y + 12), False)]
    if c.third:
        lines.append(('fg', (120, 300, 180, 312), False))
    c.assume(c.either(y + 12 <= 208, y >= 220))
    c.assume(c.either(y + 12 <= 300, y >= 312) if c.third else True)
    run(c, lines, lambda: L.dtable(xs, ys), grid(xs, ys), (100, 200, 300, 260), True)


def merged(c):
    """Text over a table of 3 x 2 cells with a merged column or row."""
    xs, ys = (100, 160, 230, 300), (200, 230, 260)
    kind = c.choice('kind', ('cols', 'rows'))
    if kind == 'cols':      # first two columns of the first row are merged
        draw = lambda: [L.dline(100, y, 300, y) for y in ys] + [L.dline(100, 200, 100, 260), L.dline(230, 200, 230, 260),
                                                                L.dline(300, 200, 300, 260), L.dline(160, 230, 160, 260)]
        cells = {(0, 0): (100, 200, 230, 230), (0, 2): (230, 200, 300, 230), (1, 0): (100, 230, 160, 260),
                 (1, 1): (160, 230, 230, 260), (1, 2): (230, 230, 300, 260)}
    else:                   # both rows of the first column are merged
        draw = lambda: [L.dline(100, 200, 300, 200), L.dline(160, 230, 300, 230), L.dline(100, 260, 300, 260)] + \
            [L.dline(x, 200, x, 260) for x in xs]
        cells = {(0, 0): (100, 200, 160, 260), (0, 1): (160, 200, 230, 230), (0, 2): (230, 200, 300, 230),
                 (1, 1): (160, 230, 230, 260), (1, 2): (230, 230, 300, 260)}
    y = c.choice('y', (208, 224, 240))
    x, w = c.real('x', 100, 290), c.real('w', 6, 120, Fraction(1, 5))
    c.assume(x + w <= 310)
    run(c, [('ab', (x, y, x + w, y + 12), False)], draw, cells, (100, 200, 300, 260), True)
    c.cover(kind)


def overlapping(c):
    """A block of two lines over two tables with overlapping boxes (the lines of one form an angle around a corner of the other)."""
    x, y = c.real('x', 60, 320), 205
    if c.axis == 'x':
        y2, w = 225, c.real('w', 8, 90, Fraction(1, 5))
    else:
        c.assume(x == 180)
        y2, w = c.real('y2', 212, 330), 40
    first = c.choice('angle', ('upper', 'lower'))
    angle = [L.dline(100, 180, 260, 180), L.dline(100, 180, 100, 240)] if first == 'upper' else \
        [L.dline(160, 320, 320, 320), L.dline(320, 230, 320, 320)]
    f = L.FakePage(0, 600, 800, drawings=lambda: angle + L.dtable((150, 300), (195, 300)),
                   content=lambda: [L.block([L.tline('ab', x, y, x + w, y + 7), L.tline('cd', x, y2, x + w, y2 + 7)])])
    text = ''.join(D.text(D.body(L.docx_of([L.parse(f)]))).split())
    c.observe(text)
    for ch in 'abcd':
        c.check(text.count(ch) == 1, f'character {ch!r} is written {text.count(ch)} times')


HARNESSES = [
    Harness('along_x', one_line, 'line at any x with any width over a 2 x 2 table',
            quick=dict(axis='x', text='abc', vertical=False), covers=['inside', 'outside']),
    Harness('along_y', one_line, 'line at any y with any height over a 2 x 2 table',
            quick=dict(axis='y', text='ab', vertical=False), covers=['inside', 'outside']),
    Harness('vertical', one_line, 'line reading bottom to top at any y with any height over a 2 x 2 table',
            quick=dict(axis='y', text='abc', vertical=True), covers=['inside', 'outside']),
    Harness('two_lines', two_lines, 'two lines in one or two source blocks at any x; inner border anywhere',
            quick=dict(axis='x'), covers=['inside']),
    Harness('block_across', block_across, 'two lines of one source block, one in the table, one at any y in, over or below it',
            quick=dict(axis='y', n=2, third=False), covers=['inside', 'outside']),
    Harness('block_across3', block_across, 'three lines of one source block, one in, one below the table, one at any y',
            quick=dict(axis='y', n=2, third=True), covers=['inside', 'outside']),
    Harness('merged', merged, 'line at any x with any width over a 3 x 2 table with merged cells',
            quick=dict(axis='x'), covers=['inside', 'cols', 'rows']),
    Harness('overlapping_x', overlapping, 'a block of two lines at any x over two tables with overlapping boxes', quick=dict(axis='x')),
    Harness('overlapping_y', overlapping, 'the same, the second line at any y', quick=dict(axis='y')),
]
