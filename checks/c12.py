"""C12: tables are written and extracted cell for cell."""
import copy

from symx.harness import Harness
from checks import docxread as D
from checks import lib as L
from checks import c11 as T

NOTE = ('Parsed tables of every rectangular tiling with contents are written with python-docx and extracted; rows, spans, sizes, borders, shading and '
        'contents are compared with the grid drawn; styles of the parsed table are replaced by free values before it is written.')
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'rows and columns of at least 20 pt', 'every grid line is drawn somewhere',
               'border widths are written in eighths of a point (rounding of 1/16 pt)', 'the last row of a table in a cell may give space to the paragraph after it',
               'shading of a merged cell is that of its first position']
TOL = 0.11


def token(t):
    return f'{"abcdefgh"[t[0]]}{"klmnopqr"[t[1]]}'


def lines_in(xs, ys, t, n=1):
    x, y = xs[t[1]] + 3, ys[t[0]] + 3
    return [L.tline(token(t) + str(k), x, y + 7 * k, x + 12, y + 6 + 7 * k, size=6) for k in range(n)]


def filled(tiles, which):
    return [t for n, t in enumerate(tiles) if which == 'all' or (which == 'some' and n % 2 == 0) or (which == 'other' and n % 2)]


def check_table(c, d, xs, ys, tiles, style, held, n=1):
    """d: the table read from the docx; style: tile -> (widths, colours, shade); held: tiles with text."""
    R, C = len(ys) - 1, len(xs) - 1
    own = T.owner(tiles)
    c.check(len(d.rows) == R, f'{len(d.rows)} rows written for {R}')
    c.check(len(d.grid) == C, f'{len(d.grid)} columns written for {C}')
    for i, r in enumerate(d.rows):
        c.check(r.rule == 'exact', 'row height is not exact')
        c.check(c.near(r.height, ys[i + 1] - ys[i], 2 * TOL), 'height of a row')
        want = []
        for j in range(C):
            t = own[i, j]
            if t not in want:
                want.append(t)
        c.check([x.col for x in r.cells] == [t[1] for t in want], 'positions of the cells of a row')
        for x, t in zip(r.cells, want):
            first = t[0] == i
            c.check(x.span == t[3], f'a cell spans {x.span} columns, drawn {t[3]}')
            c.check(x.vmerge == (None if t[2] == 1 else 'restart' if first else 'continue'), f'vertical merge {x.vmerge} of a cell')
            c.check(c.near(x.width, xs[t[1] + t[3]] - xs[t[1]], TOL), 'width of a cell')
            texts = D.text(x.content)
            if not first:
                c.check(texts == '' and len(x.content) == 1, 'contents in a cell hidden by a merge')
                continue
            c.check(len(x.content) >= 1 and x.content[-1].kind == 'p', 'a cell without paragraph at its end')
            words = texts.split()
            c.check(''.join(words) == (''.join(token(t) + str(k) for k in range(n)) if t in held else ''), f'text {texts!r} in the cell {token(t)}')
            for side in ('start', 'end'):
                c.check(side in x.margins and x.margins[side] == 0, 'cell margins')
            ws, cs, shade = style(t)
            for k, w, col in zip(('top', 'end', 'bottom', 'start'), ws, cs):
                b = x.borders.get(k)
                if b is None:
                    c.check(w == 0, f'{k} border is not written')
                    continue
                c.check(b.val == 'single', f'{k} border is {b.val}')
                c.check(c.near(b.sz, 8 * w, 0.51), f'width of the {k} border')
                c.check(b.color == col, f'colour of the {k} border')
            if shade is None:
                c.check(x.shade is None, 'shading of a cell without')
            else:
                c.check(x.shade is not None and x.shade == shade, 'shading of a cell')
    c.cover('merged' if len(tiles) < R * C else 'plain')


def make(c, R, C, tiles, held, n=1):
    xs, ys = T.grid(c, R, C)
    es = {e: (1.0, T.BLACK) for e in T.edges(R, C, tiles)}
    return xs, ys, (lambda: T.draw(c, T.runs(es, es), xs, ys, 'line')), (lambda: [L.block(lines_in(xs, ys, t, n)) for t in held])


def written(c):
    """Tables as drawn."""
    R, C = c.size
    tiles = c.choice('tiling', T.tilings(R, C))
    held = filled(tiles, c.choice('text', c.text))
    xs, ys, draw, blocks = make(c, R, C, tiles, held, c.n)
    p = T.page(c, draw, blocks)
    (sec, body), = D.pages(L.docx_of([p]))
    ts = [b for b in body if b.kind == 't']
    c.check(len(ts) == 1, f'{len(ts)} tables written for one')
    check_table(c, ts[0], xs, ys, tiles, lambda t: ((1.0,) * 4, (0,) * 4, None), held, c.n)
    c.observe(D.text(body))


def styled(c):
    """The same with the styles replaced by any."""
    R, C = c.size
    tiles = c.choice('tiling', T.tilings(R, C))
    held = filled(tiles, 'some')
    xs, ys, draw, blocks = make(c, R, C, tiles, held)
    p = T.page(c, draw, blocks)
    raw = copy.deepcopy(p.store())
    n = c.pick('at', 0, len(tiles) - 1)
    at = tiles[n]
    what = c.choice('what', (0, 1, 2, 3, 'shade'))
    ws = tuple(c.real('width', 0, 12) if k == what else 0.5 * k for k in range(4))
    colour = c.int('colour', 0, 0xffffff) if n == 0 and len(tiles) < R * C else c.choice('colour', (0, 0xa0b, 0xfedcba))
    cs = tuple(colour if k == what else 0x100 * k for k in range(4))
    shade = colour if what == 'shade' else None
    t, = [b for b in raw['blocks'] if 'rows' in b]
    cell = t['rows'][at[0]]['cells'][at[1]]
    cell.update(border_width=ws, border_color=cs, bg_color=shade)
    q = T.page(c, lambda: [])
    q.restore(raw)
    (sec, body), = D.pages(L.docx_of([q]))
    ts = [b for b in body if b.kind == 't']
    c.check(len(ts) == 1, f'{len(ts)} tables written for one')
    check_table(c, ts[0], xs, ys, tiles, lambda t: (ws, cs, shade) if t == at else ((1.0,) * 4, (0,) * 4, None), held)
    c.observe(D.text(body))
    c.cover(what)


def extracted(c):
    """Text of the cells."""
    R, C = c.size
    tiles = c.choice('tiling', T.tilings(R, C))
    held = filled(tiles, c.choice('text', c.text))
    xs, ys, draw, blocks = make(c, R, C, tiles, held, c.n)
    f = L.FakePage(0, 600, 800, content=lambda: [L.block(L.tline('first', 60, 40, 540, 52))] + blocks(), drawings=draw)
    g = L.FakePage(1, 600, 800, content=lambda: [L.block(L.tline('none', 60, 40, 540, 52))])
    from pdf2docx import Converter
    with L.single_doc([g, f]):
        cv = Converter('in.pdf')
        kw = {'kwargs': {'extract_stream_table': True}} if c.choice('stream', (False, True)) else {}
        got = cv.extract_tables(**kw)
        cv.close()
    c.check(len(got) == 1, f'{len(got)} tables extracted')
    rows = got[0]
    c.check(len(rows) == R and all(len(r) == C for r in rows), 'size of the table extracted')
    own = T.owner(tiles)
    for i, r in enumerate(rows):
        for j, text in enumerate(r):
            t = own[i, j]
            if t[:2] != (i, j):
                c.check(text is None, f'text {text!r} at a position hidden by a merge')
                continue
            want = ''.join(token(t) + str(k) for k in range(c.n)) if t in held else ''
            c.check(text is not None and ''.join(text.split()) == want, f'text {text!r} extracted from cell {token(t)}')
    c.cover('merged' if len(tiles) < R * C else 'plain')
    c.observe(rows)


def inside(c):
    """A cell that holds a table or text in columns, drawn with or without borders."""
    u = c.real('u', 215, 260)
    kind = c.choice('kind', ('columns', 'ruled', 'both'))
    at = c.choice('cell', (0, 1))
    dy = 60 * at
    lines = [('ab', 110, 110), ('cd', u, 110), ('ef', 110, 130), ('gh', u, 130)] if kind != 'ruled' else [('ab', u + 3, 128)]
    draw = L.dtable((100, 300, 400), (100, 160, 220))
    if kind != 'columns':
        draw += L.dtable((u, u + 30), (125 + dy, 150 + dy)) if kind == 'ruled' else L.dtable((110, 170), (144 + dy, 157 + dy))
    f = L.FakePage(0, 600, 800, content=lambda: [L.block(L.tline('first', 60, 40, 540, 52))]
                   + [L.block(L.tline(t, x, y + dy, x + 24, y + dy + 12)) for t, x, y in lines]
                   + [L.block(L.tline('mn', 310, 110, 340, 122)), L.block(L.tline('op', 310, 170, 340, 182)), L.block(L.tline('last', 60, 700, 540, 712))],
                   drawings=lambda: draw)
    p = L.parse(f)
    got = p.extract_tables()
    c.check(len(got) == 1, f'{len(got)} tables extracted')
    rows = got[0]
    c.check(len(rows) == 2 and all(len(r) == 2 for r in rows), 'size of the table extracted')
    c.check(all(isinstance(t, str) for r in rows for t in r), 'a cell without text')
    c.check([rows[0][1].strip(), rows[1][1].strip()] == ['mn', 'op'] and rows[1 - at][0].strip() == '', 'text of the cells beside')
    (sec, body), = D.pages(L.docx_of([p]))
    ts = [b for b in body if b.kind == 't']
    c.check(len(ts) == 1, f'{len(ts)} tables written for one')
    cells = [x for r in ts[0].rows for x in r.cells]
    c.check([len(r.cells) for r in ts[0].rows] == [2, 2], 'cells of the table written')
    words = [''.join(D.text(x.content).split()) for x in cells]
    c.check(sorted(words[2 * at]) == sorted(''.join(t for t, x, y in lines)) and [words[1], words[3], words[2 - 2 * at]] == ['mn', 'op', ''],
            f'text {words} in the cells')
    c.check(all(x.content and x.content[-1].kind == 'p' for x in cells), 'a cell without paragraph at its end')
    if any(b.kind == 't' for b in cells[2 * at].content):
        c.cover('table in a cell')
    c.observe(rows)
    c.cover(kind)


def several(c):
    """Two tables on the pages: as many written and extracted, in order."""
    gap = c.real('gap', 8, 60)
    tiles = c.choice('tiling', T.tilings(2, 2))
    xs, ys = [290, 290 + c.real('w', 30, 110), 450], [200, 230, 280]
    ys2 = [y + 80 + gap for y in ys]
    es = {e: (1.0, T.BLACK) for e in T.edges(2, 2, tiles)}
    up = c.choice('merged', ('upper', 'lower'))
    plain = T.tilings(2, 2)[0]
    ep = {e: (1.0, T.BLACK) for e in T.edges(2, 2, plain)}
    (a, ea), (b, eb) = ((tiles, es), (plain, ep)) if up == 'upper' else ((plain, ep), (tiles, es))
    tok = lambda t: lines_in(xs, ys, t)
    f = L.FakePage(0, 600, 800, content=lambda: [L.block(L.tline('first', 60, 40, 540, 52))] + [L.block(lines_in(xs, ys, t)) for t in a]
                   + [L.block(lines_in(xs, ys2, t)) for t in b] + [L.block(L.tline('last', 60, 700, 540, 712))],
                   drawings=lambda: T.draw(c, T.runs(ea, ea), xs, ys, 'line') + T.draw(c, T.runs(eb, eb), xs, ys2, 'line'))
    p = L.parse(f)
    ex = p.extract_tables()
    c.check(len(ex) == 2, f'{len(ex)} tables extracted')
    (sec, body), = D.pages(L.docx_of([p]))
    ts = [x for x in body if x.kind == 't']
    c.check(len(ts) == 2, f'{len(ts)} tables written')
    st = lambda t: ((1.0,) * 4, (0,) * 4, None)
    for rows, d, tl, y in ((ex[0], ts[0], a, ys), (ex[1], ts[1], b, ys2)):
        check_table(c, d, xs, y, tl, st, tl)
        own = T.owner(tl)
        c.check([[None if x is None else x.strip() for x in r] for r in rows] ==
                [[token((i, j)) + '0' if own[i, j][:2] == (i, j) else None for j in range(2)] for i in range(2)], 'text of a table extracted')
    c.observe(ex)


W = ['merged', 'plain']
HARNESSES = [
    Harness('written', written, 'tables of every tiling with text in all, some or no cells written',
            quick=dict(size=[2, 3], wide=[0, 1], high=[1], least=24, text=['all', 'some', 'other'], n=1), covers=W),
    Harness('written33', written, 'tables of 3 rows and 3 columns written', quick=dict(size=[3, 3], wide=[1], high=[0], least=24, text=['some'], n=2), covers=W),
    Harness('styled', styled, 'borders of any width and colour, any shading, in one cell of every tiling',
            quick=dict(size=[2, 2], wide=[0], high=[], least=24), covers=W + [0, 1, 2, 3, 'shade']),
    Harness('extracted', extracted, 'text of every tiling extracted', quick=dict(size=[2, 3], wide=[0, 1], high=[1], least=24, text=['all', 'some', 'other', 'none'], n=2), covers=W),
    Harness('inside', inside, 'a cell with text in columns, a table or both', quick={}, covers=['columns', 'ruled', 'both', 'table in a cell']),
    Harness('several', several, 'two tables of a page written and extracted', quick={}, covers=W),
]
