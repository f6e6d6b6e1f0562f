"""C11: a ruled table is recovered with its exact grid, merges, borders and fills."""
import functools

from symx import core
from symx.harness import Harness
from checks import lib as L

NOTE = ('Grids with every rectangular tiling into merged cells, drawn as lines, pieces of lines or thin filled rectangles at any place; rows, columns, '
        'spans, boxes, borders and shading of the parsed table are compared with what is drawn.')
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'rows and columns of at least 25 pt where lines are cut at any place (overlaps below 5 pt are ignored as end points)', 'rows and columns of at least 8 pt (clearance of borders: 2 pt, borders up to 4 pt)',
               'every grid line is drawn somewhere, and all lines of the table are connected',
               'a side of a merged cell along strokes of different colours has no style of its own (neighbours carry it); one along strokes of different widths may have any of them', 'a line of several colours between two merged cells of the same extent, or along the border of the table, is not considered',
               'fills are as large as the cells they are behind; a fill smaller than a cell is no shading']
TOL = 0.11


@functools.lru_cache(None)
def tilings(R, C):
    """All tilings of the grid by rectangles (i, j, rows, cols) of which some edge lies on every inner grid line."""
    out = []

    def fill(done, tiles):
        free = [(i, j) for i in range(R) for j in range(C) if (i, j) not in done]
        if not free:
            if all(any(t[0] == i for t in tiles) for i in range(R)) and all(any(t[1] == j for t in tiles) for j in range(C)):
                out.append(tuple(tiles))
            return
        i, j = free[0]
        for h in range(1, R - i + 1):
            for w in range(1, C - j + 1):
                cells = {(a, b) for a in range(i, i + h) for b in range(j, j + w)}
                if not cells & done:
                    fill(done | cells, tiles + [(i, j, h, w)])
    fill(frozenset(), [])
    return out


def owner(tiles):
    return {(a, b): t for t in tiles for a in range(t[0], t[0] + t[2]) for b in range(t[1], t[1] + t[3])}


def edges(R, C, tiles, sides='tblr'):
    """Unit edges drawn: ('h', i, j) below row i-1 and above row i, ('v', i, j) left of column j."""
    own = owner(tiles)
    for i in range(R + 1):
        for j in range(C):
            if own.get((i - 1, j)) != own.get((i, j)) and not (i == 0 and 't' not in sides) and not (i == R and 'b' not in sides):
                yield 'h', i, j
    for j in range(C + 1):
        for i in range(R):
            if own.get((i, j - 1)) != own.get((i, j)) and not (j == 0 and 'l' not in sides) and not (j == C and 'r' not in sides):
                yield 'v', i, j


def connected(es):
    """All unit edges hang together."""
    ends = [{(i, j), (i, j + 1) if k == 'h' else (i + 1, j)} for k, i, j in es]
    groups = []
    for e in ends:
        near = [g for g in groups if g & e]
        groups = [g for g in groups if not g & e] + [e.union(*near)]
    return len(groups) == 1


def runs(es, style, joined=True):
    """Strokes: maximal runs of unit edges of one style (kind, line, first, last)."""
    out = []
    for k, i, j in sorted(es, key=lambda e: (e[0], e[1], e[2]) if e[0] == 'h' else (e[0], e[2], e[1])):
        line, pos = (i, j) if k == 'h' else (j, i)
        if joined and out and out[-1][0] == k and out[-1][1] == line and out[-1][3] == pos and out[-1][4] == style[k, i, j]:
            out[-1][3] = pos + 1
        else:
            out.append([k, line, pos, pos + 1, style[k, i, j]])
    return out


def tables(page):
    return [b for b in page.store()['blocks'] if 'rows' in b]


def ruled(blocks):
    """Tables with borders, in layout tables also."""
    for b in blocks:
        if 'rows' in b:
            cells = [x for r in b['rows'] for x in r['cells'] if x]
            if any(isinstance(w, core.SymNum) or w for x in cells for w in x['border_width']):
                yield b
            else:
                for x in cells:
                    yield from ruled(x['blocks'])


def carried(own, side, style):
    """Every neighbour along a side has strokes of one style there."""
    for k, i, j in side:
        for n in (own.get((i - 1, j) if k == 'h' else (i, j - 1)), own.get((i, j))):
            # edges of the neighbour on this line
            if n is None:
                return False
            es = [('h', i, n[1] + m) for m in range(n[3])] if k == 'h' else [('v', n[0] + m, j) for m in range(n[2])]
            if len({style.get(e) for e in es}) > 1 and set(es) != set(side):
                return False
    return len({own.get((i - 1, j) if k == 'h' else (i, j - 1)) for k, i, j in side}) > 1 or \
        len({own.get((i, j)) for k, i, j in side}) > 1


def compare(c, t, xs, ys, tiles, style, fills, tol=TOL):
    R, C = len(ys) - 1, len(xs) - 1
    rows = t['rows']
    c.check(len(rows) == R, f'{len(rows)} rows for {R}')
    c.check(all(len(r['cells']) == C for r in rows), 'number of columns')
    top = {t[:2]: t for t in tiles}
    own = owner(tiles)
    for i, r in enumerate(rows):
        c.check(c.near(r['height'], ys[i + 1] - ys[i], 2 * tol), 'row height')
        for j, cell in enumerate(r['cells']):
            w = top.get((i, j))
            if w is None:
                c.check(cell is None, 'a position hidden by a merge holds a cell')
                continue
            c.check(cell is not None, 'a drawn cell is missing')
            h, n = w[2:]
            c.check(tuple(cell['merged_cells']) == (h, n), f'a cell spans {tuple(cell["merged_cells"])}, drawn {(h, n)}')
            box = xs[j], ys[i], xs[j + n], ys[i + h]
            c.check(c.both(*[c.near(a, b, tol) for a, b in zip(cell['bbox'], box)]), 'box of a cell')
            sides = ([('h', i, j + k) for k in range(n)], [('v', i + k, j + n) for k in range(h)],
                     [('h', i + h, j + k) for k in range(n)], [('v', i + k, j) for k in range(h)])
            for side, bw, bc, name in zip(sides, cell['border_width'], cell['border_color'], ('top', 'right', 'bottom', 'left')):
                st = {style.get(e) for e in side}
                if len(st) > 1:
                    if len({x[1] for x in st if x}) > 1 and None not in st and carried(own, side, style):
                        c.check(bw == 0, f'the {name} border of a merged cell has one style, strokes of several colours are drawn')
                    continue
                s = st.pop()
                c.check(bw > 0 if s and s[0] is None else c.near(bw, s[0] if s else 0, 0.11), f'width of the {name} border')
                if s:
                    c.check(bc == colour(s[1]), f'colour of the {name} border')
            want = fills.get((i, j))
            c.check(cell['bg_color'] == (None if want is None else colour(want)) or (want == BLANK and cell['bg_color'] is None), 'shading of a cell')
    c.cover('merged' if len(tiles) < R * C else 'plain')


def colour(rgb):
    r, g, b = [round(v * 255) for v in rgb[:3]]
    return r << 16 | g << 8 | b


def grid(c, R, C, free=True):
    """Positions of the lines."""
    xs, ys = [290], [200]
    for j in range(C):
        xs.append(xs[-1] + (c.real(f'w{j}', c.params.get('least', 8), 80) if j in c.wide else 40 + 5 * j))
    for i in range(R):
        ys.append(ys[-1] + (c.real(f'h{i}', c.params.get('least', 8), 90) if i in c.high else 20 + 3 * i))
    return xs, ys


def draw(c, strokes, xs, ys, how, over=lambda k: 0, ext=0):
    out = []
    for k, (kind, line, a, b, (w, col)) in enumerate(strokes):
        d = over(k)
        if k in c.params.get('cut', ()):
            # two pieces that meet anywhere
            at = xs if kind == 'h' else ys
            m = c.real(f'm{k}', 200, 600)
            c.assume(c.both(m >= at[a] + 2, m <= at[b] - 2))
            out += [L.dline(*((u, ys[line], v, ys[line]) if kind == 'h' else (xs[line], u, xs[line], v)), w, col)
                    for u, v in ((at[a], m), (m, at[b]))]
            continue
        if kind == 'h':
            p = (xs[a] - ext, ys[line] + d, xs[b] + ext, ys[line] + d)
        else:
            p = (xs[line] + d, ys[a] - ext, xs[line] + d, ys[b] + ext)
        if how == 'fill':
            e, f = (0, w / 2) if kind == 'h' else (w / 2, 0)
            out.append(L.dfill(p[0] - e, p[1] - f, p[2] + e, p[3] + f, fill=col))
        else:
            if how == 'back':
                p = p[2:] + p[:2]
            out.append(L.dline(*p, w, col))
    return out


def page(c, draw, blocks=lambda: []):
    f = L.FakePage(0, 600, 800, content=lambda: [L.block(L.tline('first', 60, 40, 540, 52))] + blocks() + [L.block(L.tline('last', 60, 700, 540, 712))], drawings=draw)
    return L.parse(f)


BLANK = (1.0, 1.0, 1.0, 'white area on nothing')
WHITE, BLACK, RED, BLUE = (1.0, 1.0, 1.0), (0, 0, 0), (1.0, 0.0, 0.0), (0.0, 0.2, 1.0)


def run(c, R, C, tiles, style, sides='tblr', how='line', fills=None, joined=True, over=lambda k: 0, ext=0, tol=TOL, blocks=lambda xs, ys: [], extra=lambda xs, ys: []):
    xs, ys = grid(c, R, C)
    es = list(edges(R, C, tiles, sides))
    style = {e: style(e) for e in es}
    got = page(c, lambda: draw(c, runs(es, style, joined), xs, ys, how, over, ext) + extra(xs, ys), lambda: blocks(xs, ys))
    ts = tables(got)
    c.check(len(ts) == 1, f'{len(ts)} tables for one drawn')
    compare(c, ts[0], xs, ys, tiles, style, fills or {}, tol)
    c.observe([len(ts[0]['rows'])])


def merges(c):
    """Every tiling."""
    R, C = c.size
    all_ = tilings(R, C)
    tiles = c.choice('tiling', all_)
    how = c.choice('how', c.how)
    run(c, R, C, tiles, lambda e: (1.0, BLACK), how=how, joined=c.joined)
    c.cover(how)


def offsets(c):
    """Pieces of the grid lines drawn with small offsets."""
    R, C = c.size
    tiles = c.choice('tiling', [tilings(R, C)[k] for k in c.tilings] if c.tilings else tilings(R, C))
    run(c, R, C, tiles, lambda e: (1.0, BLACK), joined=c.joined, over=lambda k: c.real(f'd{k}', -c.off, c.off) if k in c.at else 0, ext=0.5, tol=2 * c.off + 0.1)


def outer(c):
    """Any of the outer borders missing."""
    R, C = c.size
    tiles = c.choice('tiling', tilings(R, C))
    # some stroke reaches every side that is not drawn
    es = set(edges(R, C, tiles, ''))
    reach = {'t': {e for e in es if e[0] == 'v' and e[1] == 0}, 'b': {e for e in es if e[0] == 'v' and e[1] == R - 1},
             'l': {e for e in es if e[0] == 'h' and e[2] == 0}, 'r': {e for e in es if e[0] == 'h' and e[2] == C - 1}}
    sides = c.choice('sides', ['', 't', 'b', 'l', 'r', 'tb', 'lr', 'tl', 'br', 'tbl', 'lrb'])
    if not all(k in sides or reach[k] for k in 'tblr') or not connected(edges(R, C, tiles, sides)):
        c.assume(False)
    run(c, R, C, tiles, lambda e: (1.0, BLACK), sides)
    c.cover(sides)


def styles(c):
    """Borders of any width and different colours."""
    R, C = c.size
    tiles = c.choice('tiling', tilings(R, C))
    w1, w2, w3 = c.real('w1', 0.3, 4), c.real('w2', 0.3, 4), c.real('w3', 0.3, 4)
    kind = c.choice('kind', c.kinds)

    def style(e):
        k, i, j = e
        if kind == 'outer':
            return (w1, RED) if (i in (0, R) if k == 'h' else j in (0, C)) else (w2, BLUE)
        if kind == 'lines':
            return (w1, RED) if k == 'h' and i % 2 else (w3, BLUE) if k == 'v' and j % 2 else (w2, BLACK)
        return (w1, RED) if (i + j) % 2 else (w1, BLUE)
    run(c, R, C, tiles, style, how=c.choice('how', c.how))
    c.cover(kind)


def fills(c):
    """Areas of different colours behind the cells, which hold text or not."""
    R, C = c.size
    tiles = c.choice('tiling', tilings(R, C))
    kind = c.choice('kind', c.kinds)
    text = c.choice('text', c.text)
    w = c.real('bw', 0.5, 3)
    d = c.real('d', -1.5, 1.5)
    c.assume(c.both(d <= w / 2, d >= -w / 2))
    cols = ((1.0, 1.0, 0.0), (0.8, 0.8, 0.8), (0.0, 1.0, 1.0))
    want, area = {}, []
    if kind == 'each':
        for n, t in enumerate(tiles):
            if n % 2 == c.odd:
                want[t[:2]] = cols[n % 3]
                area.append((t, cols[n % 3]))
    elif kind == 'rows':        # one area behind all cells of the first row
        if any(t[0] == 0 and t[2] > 1 for t in tiles):
            c.assume(False)
        area.append(((0, 0, 1, C), cols[0]))
        want = {t[:2]: cols[0] for t in tiles if t[0] == 0}
    elif kind == 'all':
        area.append(((0, 0, R, C), cols[1]))
        want = {t[:2]: cols[1] for t in tiles}
    elif kind == 'over':        # one cell drawn over the area of the table
        area += [((0, 0, R, C), cols[1]), (tiles[-1], cols[0])]
        want = {t[:2]: cols[1] for t in tiles}
        want[tiles[-1][:2]] = cols[0]
    elif kind == 'white':
        area += [(tiles[0], WHITE)]
        want[tiles[0][:2]] = BLANK
    elif kind == 'over white':
        area += [((0, 0, R, C), cols[1]), (tiles[-1], WHITE)]
        want = {t[:2]: cols[1] for t in tiles}
        want[tiles[-1][:2]] = WHITE

    def extra(xs, ys):
        return [L.dfill(xs[t[1]] - d, ys[t[0]] - d, xs[t[1] + t[3]] + d, ys[t[0] + t[2]] + d, fill=col) for t, col in area]

    def blocks(xs, ys):
        return [L.block(L.tline('ab', xs[t[1]] + 3, ys[t[0]] + 3, xs[t[1]] + 13, ys[t[0]] + 13)) for n, t in enumerate(tiles) if text == 'all' or (text == 'some' and n % 2)]
    run(c, R, C, tiles, lambda e: (w, BLACK), fills=want, extra=extra, blocks=blocks)
    c.cover(kind)


def rects(c):
    """Every cell drawn as a rectangle of its own."""
    R, C = c.size
    tiles = c.choice('tiling', tilings(R, C))
    xs, ys = grid(c, R, C)
    filled = c.choice('filled', (False, True))
    import fitz
    out = []
    for i, j, h, n in tiles:
        r = fitz.Rect(xs[j], ys[i], xs[j + n], ys[i + h])
        out.append({'type': 'fs' if filled else 's', 'color': BLACK, 'fill': RED if filled else None, 'width': 0.5, 'closePath': False,
                    'even_odd': None, 'rect': r, 'items': [('re', r)], 'opacity': 1.0})
    got = page(c, lambda: out)
    ts = tables(got)
    c.check(len(ts) == 1, f'{len(ts)} tables for one drawn')
    style = {e: (None, BLACK) for e in edges(R, C, tiles)}
    compare(c, ts[0], xs, ys, tiles, style, {t[:2]: RED for t in tiles} if filled else {})
    c.observe([len(ts[0]['rows'])])
    c.cover(filled)


def several(c):
    """Two tables below or beside each other, and one in a cell."""
    gap = c.real('gap', 8, 60)
    how = c.choice('how', ('below', 'beside', 'nested'))
    xs, ys = (290, 290 + c.real('w', 60, 110), 450), (200, 230, 280)
    t1 = tilings(2, 2)
    tiles = c.choice('tiling', t1)
    d = {'below': (0, 80 + gap), 'beside': (-(160 + gap), 0), 'nested': (0, 0)}[how]
    style = {e: (1.0, BLACK) for e in edges(2, 2, tiles)}
    xs2, ys2 = [x + d[0] for x in xs], [y + d[1] for y in ys]
    tiles2 = t1[0]
    if how == 'nested':
        if tiles[0][2:] != (1, 1):
            c.assume(False)
        xs2, ys2 = (300, 300 + c.real('u', 9, 20), 340), (206, 215, 224)
    style2 = {e: (0.5, BLUE) for e in edges(2, 2, tiles2)}
    got = page(c, lambda: draw(c, runs(style, style), xs, ys, 'line') + draw(c, runs(style2, style2), xs2, ys2, 'line'))
    ts = list(ruled(got.store()['blocks']))
    c.check(len(ts) == (1 if how == 'nested' else 2), f'{len(ts)} tables for two drawn {how}')
    if how == 'nested':
        compare(c, ts[0], xs, ys, tiles, style, {})
        inner = [b for b in ts[0]['rows'][0]['cells'][0]['blocks'] if 'rows' in b]
        c.check(len(inner) == 1, 'table in a cell')
        ts = [ts[0], inner[0]]
        # its last row may be shortened to leave space for a paragraph
        c.check(c.both(inner[0]['rows'][1]['height'] >= 6, inner[0]['rows'][1]['height'] <= 9.1), 'last row of the table in a cell')
        inner[0]['rows'][1]['height'] = 9
    else:
        ts.sort(key=lambda t: 0 if c.true(c.both(c.near(t['bbox'][0], 290, 1), c.near(t['bbox'][1], 200, 1))) else 1)
        if how == 'beside':     # the same in the cells of a layout table
            for t in ts:
                c.check(c.both(t['rows'][1]['height'] >= 47, t['rows'][1]['height'] <= 50.1), 'last row of a table beside another one')
                t['rows'][1]['height'] = 50
        compare(c, ts[0], xs, ys, tiles, style, {})
    compare(c, ts[1], xs2, ys2, tiles2, style2, {})
    c.observe(len(ts))
    c.cover(how)


HARNESSES = [
    Harness('merges', merges, 'every tiling of a grid of 2 rows and 3 columns, any widths and heights',
            quick=dict(size=[2, 3], wide=[0, 1, 2], high=[0, 1], how=['line', 'back', 'fill'], joined=True), covers=['merged', 'plain', 'line', 'fill']),
    Harness('merges33', merges, 'every tiling of a grid of 3 rows and 3 columns',
            quick=dict(size=[3, 3], wide=[0, 1], high=[1, 2], how=['line'], joined=True), covers=['merged', 'plain']),
    Harness('pieces', merges, 'every tiling drawn in pieces of lines',
            quick=dict(size=[2, 3], wide=[0, 1], high=[1], how=['line', 'fill'], joined=False), covers=['merged', 'plain']),
    Harness('cut', merges, 'lines of the grid drawn in two pieces that meet anywhere', quick=dict(size=[2, 2], wide=[], high=[], how=['line'], joined=True, cut=[1, 4]),
            thorough=dict(size=[2, 2], wide=[0], high=[1], how=['line'], joined=True, cut=[1, 2, 4], least=25)),
    Harness('offsets', offsets, 'grid lines in pieces with small offsets', quick=dict(size=[2, 2], wide=[], high=[], joined=False, off=0.9, at=[2, 3, 8], tilings=[])),
    Harness('offsets3', offsets, 'a grid line in three pieces with small offsets', quick=dict(size=[2, 3], wide=[], high=[], joined=False, off=0.9, at=[3, 4, 5], tilings=[0])),
    Harness('outer', outer, 'outer borders missing', quick=dict(size=[2, 3], wide=[1], high=[0]), covers=['', 't', 'b', 'l', 'r', 'tb', 'lr']),
    Harness('styles', styles, 'borders of any width and several colours', quick=dict(size=[2, 2], wide=[], high=[], kinds=['outer', 'lines', 'mixed'], how=['line', 'fill']), covers=['outer', 'lines', 'mixed']),
    Harness('fills', fills, 'areas behind cells', quick=dict(size=[2, 2], wide=[0], high=[1], odd=0, least=20, kinds=['each', 'rows', 'all', 'over', 'white', 'over white'], text=['all', 'some', 'none']), covers=['each', 'rows', 'all', 'over', 'white', 'over white']),
    Harness('rects', rects, 'every cell drawn as a rectangle', quick=dict(size=[2, 3], wide=[0], high=[1]), covers=[True, False, 'merged']),
    Harness('several', several, 'two tables below, beside, in each other', quick={}, covers=['below', 'beside', 'nested']),
]
