"""C28: whatever lines a table is drawn with, its cells tile the grid and hold all its text."""
from symx.harness import Harness
from checks import docxread as D
from checks import lib as L
from checks import c11 as T
from checks.c12 import TOL, lines_in, token

NOTE = ('Full page parse, docx writing and extraction of tables in which any pieces of the inner lines are missing, lines end anywhere inside a cell, or '
        'which have no lines at all and text anywhere; every row written must fill the columns, merged cells continue below, and each text be written once, where it is drawn.')
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'rows and columns of at least 20 pt where text is in them', 'pieces of lines that touch nothing else are no part of the table']


def covers(c, d, origin, held):
    """A valid table; every text (word, x, y) once, in a cell that covers the place where it is drawn."""
    at = {}
    y = origin[1]
    below, opened = {}, {}
    for r in d.rows:
        c.check(sum(q.span for q in r.cells) == len(d.grid), f'a row of {sum(q.span for q in r.cells)} columns, the table has {len(d.grid)}')
        now, x1 = {}, origin[0]
        for q in r.cells:
            x0, x1 = x1, x1 + q.width
            key = (q.col, q.span)
            if q.vmerge == 'continue':
                c.check(key in below, 'a cell continues no cell above')
                first = below.get(key)
                c.check(D.text(q.content) == '', 'contents in a cell hidden by a merge')
            else:
                first = (q.col, q.span, y, D.text(q.content))
            if q.vmerge:
                now[key] = first
            if first:
                at[first[:2] + (str(first[2]),)] = (x0, first[2], x1, y + r.height, first[3])
        below = now
        y = y + r.height
    boxes = list(at.values())
    seen = ' '.join(b[4] for b in boxes)
    for text, mx, my in held:
        n = seen.count(text)
        c.check(n == 1, f'text {text} is written {n} times')
        for b in boxes:
            if text in b[4]:
                c.check(c.both(b[0] <= mx + TOL, mx <= b[2] + TOL, b[1] <= my + TOL, my <= b[3] + TOL), f'text {text} is in a cell elsewhere')
    return len(boxes)


def sound(c, p, xs, ys, held):
    ex = p.extract_tables()
    (sec, body), = D.pages(L.docx_of([p]))
    ts = [b for b in body if b.kind == 't']
    c.check(len(ts) == 1, f'{len(ts)} tables written for one')
    c.check(len(ex) == 1, f'{len(ex)} tables extracted for one')
    n = covers(c, ts[0], (xs[0], ys[0]), [(token(t) + '0', xs[t[1]] + 9, ys[t[0]] + 6) for t in held])
    rows = ex[0]
    c.check(all(len(r) == len(rows[0]) for r in rows), 'rows of different lengths extracted')
    c.check(sum(x is not None for r in rows for x in r) == n, 'number of cells extracted')
    words = ' '.join(x for r in rows for x in r if x is not None)
    c.check('<NEST TABLE>' in words or all(words.count(token(t) + '0') == 1 for t in held), f'text extracted is {words!r}')
    c.observe((n, words))


def ragged(c):
    """Any pieces of the inner grid lines drawn, whether they enclose rectangles or not."""
    R, C = c.size
    xs, ys = T.grid(c, R, C)
    inner = [('h', i, j) for i in range(1, R) for j in range(C)] + [('v', i, j) for i in range(R) for j in range(1, C)]
    held = [(i, j) for i in range(R) for j in range(C)]
    outer = [('h', i, j) for i in (0, R) for j in range(C)] + [('v', i, j) for i in range(R) for j in (0, C)]
    bits = c.pick('pieces', 0, 2 ** len(inner) - 1)
    es = {e: (1.0, T.BLACK) for e in outer + [e for k, e in enumerate(inner) if bits >> k & 1]}
    p = T.page(c, lambda: T.draw(c, T.runs(es, es), xs, ys, 'line'), lambda: [L.block(lines_in(xs, ys, t)) for t in held])
    # pieces that touch nothing else are no part of the table
    loose = False
    if R > 2 or C > 2:
        ends = lambda e: ((e[1], e[2]), (e[1], e[2] + 1)) if e[0] == 'h' else ((e[1], e[2]), (e[1] + 1, e[2]))
        seen, todo = set(), {(0, 0)}
        while todo:
            q = todo.pop()
            seen.add(q)
            todo |= {u for e in es if q in ends(e) for u in ends(e)} - seen
        loose = any(e for e in es if ends(e)[0] not in seen)
    if loose:
        (sec, body), = D.pages(L.docx_of([p]))
        words = D.text(body)
        c.check(all(words.count(token(t) + '0') == 1 for t in held), f'text written is {words!r}')
        c.cover('loose')
        return
    sound(c, p, xs, ys, held)
    c.cover('table')


def tick(c):
    """A line of any length from one side of a cell into it."""
    R, C = c.size
    xs, ys = [290] + [350 + 60 * k for k in range(C)], [300] + [360 + 60 * k for k in range(R)]
    es = {e: (1.0, T.BLACK) for e in T.edges(R, C, [(i, j, 1, 1) for i in range(R) for j in range(C)])}
    held = [(i, j) for i in range(R) for j in range(C)]
    side = c.choice('side', 'lrtb')
    u, d = c.real('u', 10, 50), c.real('d', 3, 60)
    i, j = c.choice('cell', ((0, 0), (R - 1, C - 1)))
    a, b = (xs[j], xs[j + 1]) if side in 'lr' else (ys[i], ys[i + 1])
    s = (a, a + d) if side in 'lt' else (b - d, b)
    at = (ys[i] if side in 'lr' else xs[j]) + u
    if side in 'lr':
        # the text is clear of the line
        c.assume(c.either(u > 16, u < 0))
        stroke = (s[0], at, s[1], at)
    else:
        c.assume(u > 22)
        stroke = (at, s[0], at, s[1])
    p = T.page(c, lambda: T.draw(c, T.runs(es, es), xs, ys, 'line') + [L.dline(*stroke)], lambda: [L.block(lines_in(xs, ys, t)) for t in held])
    sound(c, p, xs, ys, held)
    c.cover(side)


def every_table(items):
    for b in items:
        if b.kind == 't':
            yield b
            for r in b.rows:
                for q in r.cells:
                    yield from every_table(q.content)


def unruled(c):
    """Words anywhere, in rows and columns or not."""
    x, y = c.real('x', 60, 420) if c.axis == 'x' else c.choice('x', (180, 320, 360)), c.real('y', 80, 200) if c.axis == 'y' else c.choice('y', (100, 109, 130))
    w = c.real('w', 20, 280) if c.axis == 'x' else 40
    boxes = [('aa', 60, 100, 40, 12), ('bb', 300, 100, 40, 12), ('cc', 60, 130, 200, 12), ('dd', 300, 130, 60, 30), ('ee', 60, 160, 40, 12)]
    boxes = boxes[:c.n] + [('zz', x, y, w, 12)]
    for _, x0, y0, w0, h0 in boxes[:-1]:
        c.assume(c.either(x + w <= x0, x >= x0 + w0, y + 12 <= y0, y >= y0 + h0))
    fill = [L.dfill(295, 95, 365, 165)] if c.params.get('fill') else []
    f = L.FakePage(0, 600, 800, content=lambda: [L.block(L.tline('first', 60, 40, 540, 52))] +
                   [L.block(L.tline(t, x0, y0, x0 + w0, y0 + h0)) for t, x0, y0, w0, h0 in boxes], drawings=lambda: list(fill))
    p = L.parse(f)
    ex = p.extract_tables()
    (sec, body), = D.pages(L.docx_of([p]))
    text = D.text(body)
    for t in ['first'] + [b[0] for b in boxes]:
        c.check(text.count(t) == 1, f'text {t} is written {text.count(t)} times')
    ts = list(every_table(body))
    for t in ts:
        covers(c, t, (0, 0), [])
    for rows in ex:
        c.check(all(len(r) == len(rows[0]) for r in rows), 'rows of different lengths extracted')
    c.observe((text, len(ts)))
    c.cover('table' if ts else 'no table')


def lines(c):
    """Three lines across and three down, of which two end anywhere, and words at any place among them."""
    a, b = c.real('a', 80, 330), c.real('b', 180, 330)
    k, m = c.choice('ends', ((0, 3), (1, 4), (2, 0), (4, 2), (3, 5), (5, 1)))
    ls = [[100, 300, 200], [100, 300, 250], [160, 300, 300], [200, 300, 100], [200, 300, 200], [200, 260, 300]]
    c.assume(c.both(a + 2 <= ls[k][1], b >= ls[m][0] + 2))
    ls[k][0], ls[m][1] = a, b
    draw = lambda: [L.dline(u, at, v, at) if n < 3 else L.dline(at, u, at, v) for n, (u, v, at) in enumerate(ls)]
    words = [('aa', 110, 210), ('bb', 210, 210), ('cc', 110, 270), ('dd', 210, 270)]
    f = L.FakePage(0, 600, 800, content=lambda: [L.block(L.tline('first', 60, 40, 540, 52))] + [L.block(L.tline(t, x, y, x + 30, y + 12)) for t, x, y in words], drawings=draw)
    p = L.parse(f)
    ex = p.extract_tables()
    (sec, body), = D.pages(L.docx_of([p]))
    text = D.text(body)
    for t in ['first'] + [b[0] for b in words]:
        c.check(text.count(t) == 1, f'text {t} is written {text.count(t)} times')
    ts = list(every_table(body))
    for t in ts:
        covers(c, t, (0, 0), [])
    for rows in ex:
        c.check(all(len(r) == len(rows[0]) for r in rows), 'rows of different lengths extracted')
    c.observe((text, len(ts)))
    c.cover('table' if ts else 'no table')


HARNESSES = [
    Harness('ragged', ragged, 'any pieces of the inner lines of a grid drawn', quick=dict(size=[2, 2], wide=[0, 1], high=[0, 1], least=24), covers=['table']),
    Harness('ragged23', ragged, 'any pieces of the inner lines of a larger grid drawn', quick=dict(size=[2, 3], wide=[1], high=[0], least=24),
            thorough=dict(size=[3, 3], wide=[], high=[], least=24), covers=['table']),
    Harness('tick', tick, 'a line of any length from a side of a cell of one or four', quick=dict(size=[1, 1]), covers=list('lrtb')),
    Harness('tick22', tick, 'the same with four cells', quick=dict(size=[2, 2]), covers=list('lrtb')),
    Harness('unruled_x', unruled, 'words of any width at any x among four in rows and columns', quick=dict(axis='x', n=4), thorough=dict(axis='x', n=5), covers=['table']),
    Harness('unruled_y', unruled, 'words at any height among five in rows and columns', quick=dict(axis='y', n=5), covers=['table']),
    Harness('shaded', unruled, 'the same over a shaded area', quick=dict(axis='y', n=5, fill=True), covers=['table']),
    Harness('lines', lines, 'six lines of which two end anywhere', quick={}, covers=['table']),
]
