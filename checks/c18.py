"""C18: inferred borders of borderless tables never cut through text."""
from symx.harness import Harness
from checks import lib as L

NOTE = ('Pages of text in columns and rows at any place without ruling, with strokes and areas of any place and extent near them; every line of text in '
        'a table inferred is within its cell as a whole, and lines of different columns are in different cells.')
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'strokes are single ones, that make up no ruled table', 'borders may overlap with text by 1 pt (tolerance of the code)']
TOL = 1.06


def walk(blocks, path=()):
    """(path of cells, line) of all text lines; a cell is (bbox, widths)."""
    for b in blocks:
        if 'rows' in b:
            for r in b['rows']:
                for x in r['cells']:
                    if x:
                        yield from walk(x['blocks'], path + (x,))
        else:
            for ln in b['lines']:
                yield path, ln


def text(ln):
    return ''.join(ch['c'] for s in ln['spans'] for ch in s.get('chars', []))


def check(c, items, drawings=lambda: [], columns=None, expect=True, **settings):
    """items: [(token, box)]; columns: tokens of each column."""
    f = L.FakePage(0, 600, 800, content=lambda: [L.block(L.tline('first', 60, 40, 540, 52))] + [L.block(L.tline(t, *b)) for t, b in items]
                   + [L.block(L.tline('last', 60, 700, 540, 712))], drawings=drawings)
    st = L.parse(f, **settings).store()
    where, deep = {}, 0
    for path, ln in walk(st['blocks']):
        got = text(ln)
        for t, b in items:
            if t not in got:
                continue
            c.check(t not in where, f'line {t!r} is in two places')
            where[t] = path
            for x in path:
                box = x['bbox']
                c.check(c.both(b[0] >= box[0] - TOL, b[2] <= box[2] + TOL), f'a vertical border cuts through the line {t!r}')
                c.check(c.both(b[1] >= box[1] - TOL, b[3] <= box[3] + TOL), f'a horizontal border cuts through the line {t!r}')
            deep = max(deep, len(path))
    for t, b in items:
        c.check(t in where, f'line {t!r} is cut or lost')
    if columns:
        for k, col in enumerate(columns):
            for other in columns[k + 1:]:
                for a in col:
                    for b in other:
                        c.check(not (where[a] and where[b] and where[a][-1] is where[b][-1]), f'lines of different columns in a cell')
    for b in st['blocks']:
        if 'rows' in b:
            for r in b['rows']:
                for x in r['cells']:
                    if x:
                        c.check(c.both(x['bbox'][2] >= x['bbox'][0], x['bbox'][3] >= x['bbox'][1]), 'a cell of negative size')
    c.cover(f'depth {deep}')
    c.cover(f'tables {sum(1 for b in st["blocks"] if "rows" in b)}, rows {max([len(b["rows"]) for b in st["blocks"] if "rows" in b] or [0])}')
    c.observe(sorted(where))


def stroke(c, lo, hi, top, bottom):
    """One stroke or area somewhere near."""
    kind = c.choice('kind', c.kinds)
    if kind == 'none':
        return []
    if kind == 'h':
        x, y, w = c.real('sx', lo, hi), c.real('sy', top, bottom), c.real('sw', 20, 300)
        return [L.dline(x, y, x + w, y, 1.0)]
    if kind == 'v':
        x, y, h = c.real('sx', lo, hi), c.real('sy', top, bottom), c.real('sh', 20, 100)
        return [L.dline(x, y, x, y + h, 1.0)]
    x, y, w, h = c.real('sx', lo, hi), c.real('sy', top, bottom), c.real('sw', 20, 300), c.real('sh', 8, 100)
    return [L.dfill(x, y, x + w, y + h, fill=(0.9, 0.9, 0.5))]


def grid(c):
    """Rows and columns of text."""
    R, C = c.size
    xs = [60, 260, 440]
    items, cols = [], [[] for _ in range(C)]
    for j in range(C):
        for i in range(R):
            t = 'abc'[j] * 2 + str(i)
            x = xs[j] + (c.real(f'x{i}{j}', 0, 60) if [i, j] in c.loose else 5 * i)
            y = 200 + 30 * i + (c.real(f'y{i}{j}', -6, 6) if [i, j] in c.shift else 0)
            w = c.real(f'w{i}{j}', 20, 100) if [i, j] in c.loose else 80
            items.append((t, (x, y, x + w, y + 12)))
            cols[j].append(t)
    d = stroke(c, 60, 500, 180, 300)
    check(c, items, lambda: d, cols)


def arr(c):
    """Lines in any arrangement: `boxes` with an edge or more of any place."""
    boxes = {t: list(b) for t, b in c.boxes.items()}
    for t, k, lo, hi in c.free:
        boxes[t][k] = c.real(f'{t}_{"x0 y0 x1 y1".split()[k]}', lo, hi)
    d = []
    for kind, *p in c.params.get('drawings', []):
        p = [c.real(f'd{len(d)}_{i}', *q) if isinstance(q, list) else q for i, q in enumerate(p)]
        if kind == 'h':
            d.append(L.dline(p[0], p[1], p[2], p[1], 1.0))
        elif kind == 'v':
            d.append(L.dline(p[0], p[1], p[0], p[2], 1.0))
        else:
            d.append(L.dfill(*p, fill=(0.9, 0.9, 0.5)))
    check(c, [(t, tuple(b)) for t, b in boxes.items()], lambda: d, c.params.get('columns'))


def G(cols, rows=(200, 230, 260), w=80, h=12):
    return {'abcd'[j] * 2 + str(i): [x, y, x + w, y + h] for j, x in enumerate(cols) for i, y in enumerate(rows)}


GRID = G([60, 260, 440], (200, 230))
# a row of three columns below rows of two
IRR = {'aa0': [60, 200, 140, 212], 'bb0': [330, 200, 440, 212], 'aa1': [60, 230, 150, 242], 'bb1': [240, 230, 310, 242], 'cc1': [400, 230, 480, 242]}
# a tall column beside rows
TALL = {'aa0': [60, 200, 140, 250], 'bb0': [240, 200, 320, 212], 'bb1': [240, 238, 320, 250], 'cc0': [420, 200, 500, 212], 'cc1': [420, 238, 500, 250]}
# two columns within a column
NEST = {'aa0': [60, 200, 120, 212], 'bb0': [200, 200, 400, 212], 'bb1': [200, 230, 270, 242], 'cc1': [330, 230, 400, 242], 'dd0': [470, 200, 540, 212], 'dd1': [470, 230, 530, 242]}
# columns of different top and bottom
UNEVEN = {'aa0': [60, 206, 140, 270], 'bb0': [240, 200, 320, 212], 'bb1': [240, 238, 320, 250], 'cc0': [420, 204, 500, 216], 'cc1': [420, 236, 500, 246]}
# rows of two columns of different top and bottom, within a column
NESTROWS = {'aa0': [60, 200, 120, 212], 'bb0': [200, 200, 400, 212], 'bb1': [200, 230, 270, 258], 'cc1': [330, 231, 400, 242], 'bb2': [200, 268, 270, 288],
            'cc2': [330, 266, 400, 280], 'dd0': [470, 200, 540, 212], 'dd1': [470, 230, 530, 242]}

HARNESSES = [
    Harness('uneven', arr, 'columns of different top and bottom', quick=dict(boxes=UNEVEN, free=[['aa0', 1, 190, 212], ['aa0', 3, 246, 280]]), covers=['tables 1, rows 2']),
    Harness('nested_rows', arr, 'rows of columns within a column', quick=dict(boxes=NESTROWS, free=[['bb1', 3, 240, 258], ['cc1', 3, 240, 262], ['cc2', 1, 263, 272]]), covers=['tables 1, rows 3']),
    Harness('irregular', arr, 'three columns below two', quick=dict(boxes=IRR, free=[['bb0', 0, 160, 430], ['bb1', 2, 250, 390]]), covers=['depth 2']),
    Harness('tall', arr, 'a tall column beside rows', quick=dict(boxes=TALL, free=[['aa0', 1, 180, 240], ['cc0', 3, 203, 236]]), covers=['tables 1, rows 2']),
    Harness('nested', arr, 'columns within a column', quick=dict(boxes=NEST, free=[['bb0', 0, 125, 350], ['bb1', 3, 233, 260]]), covers=['depth 2']),
    Harness('areah', arr, 'an area from any place', quick=dict(boxes=GRID, free=[], drawings=[['area', [50, 500], [190, 250], 520, 255]]), covers=['tables 1, rows 2']),
    Harness('areaw', arr, 'an area of any extent', quick=dict(boxes=GRID, free=[], drawings=[['area', 55, 195, [60, 550], [200, 260]]]), covers=['tables 1, rows 2']),
    Harness('grid', grid, 'two rows and two columns of text at any place', quick=dict(size=[2, 2], loose=[[0, 0], [1, 1]], shift=[[0, 1]], kinds=['none']), covers=['tables 1, rows 1']),
    Harness('grid3', grid, 'two rows and three columns', quick=dict(size=[2, 3], loose=[[1, 1]], shift=[[0, 1], [1, 2]], kinds=['none']),
            thorough=dict(size=[3, 3], loose=[[1, 1]], shift=[[0, 1], [1, 2], [2, 1]], kinds=['none']), covers=['tables 1, rows 2']),
    Harness('hstroke', arr, 'a horizontal stroke anywhere', quick=dict(boxes=GRID, free=[], drawings=[['h', [50, 500], [190, 255], 560]]),
            thorough=dict(boxes=G([60, 260, 440]), free=[], drawings=[['h', [50, 500], [190, 290], [60, 560]]]), covers=['tables 1, rows 2']),
    Harness('hstroke_w', arr, 'a horizontal stroke of any length', quick=dict(boxes=GRID, free=[], drawings=[['h', 55, [190, 255], [60, 560]]]), covers=['tables 1, rows 2']),
    Harness('vstroke', arr, 'a vertical stroke anywhere', quick=dict(boxes=GRID, free=[], drawings=[['v', [50, 550], [180, 230], [231, 260]]]), covers=['tables 1, rows 2']),
    Harness('cross', arr, 'a horizontal and a vertical stroke', quick=dict(boxes=GRID, free=[], drawings=[['h', 50, [212, 230], 560], ['v', [140, 260], 190, 255]]),
            thorough=dict(boxes=GRID, free=[], drawings=[['h', 50, [195, 250], 560], ['v', [50, 500], 190, 255]]), covers=['depth 2']),
    Harness('under', arr, 'an area and a stroke', quick=dict(boxes=GRID, free=[], drawings=[['area', 55, 195, 560, [213, 229]], ['h', 55, [195, 248], 560]]), covers=['depth 2']),
    Harness('area', grid, 'an area anywhere', quick=False, thorough=dict(size=[2, 3], loose=[], shift=[], kinds=['area'])),
]
