"""C23: all text of a page reaches the docx exactly once."""
from fractions import Fraction

from symx.harness import Harness
from checks import docxread as D
from checks import lib as L

NOTE = 'Pages of up to four lines of one or two characters; the characters are fixed, their places symbolic.'
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'text lies on the page and reads left to right or bottom to top']
EVEN = Fraction(1, 5)


def squeeze(t):
    return ''.join(t.split())


def may_drop(c, a, b):
    """Two boxes overlap in more than the overlap threshold (0.9, here with some margin) of the smaller."""
    w = c.min(a[2], b[2]) - c.max(a[0], b[0])
    h = c.min(a[3], b[3]) - c.max(a[1], b[1])
    if not c.true(c.both(w > 0, h > 0)):
        return False
    area = lambda r: (r[2] - r[0]) * (r[3] - r[1])
    return c.true(c.either(w * h >= 0.85 * area(a), w * h >= 0.85 * area(b)))


def judge(c, lines, got, stacked=True, split=(), blocks=None):
    """lines: [(text, box)]; got: text of the docx without blanks; split: texts whose characters may be separated,
    because a border crosses the line."""
    for t in split:
        c.check(all(got.count(ch) == 1 for ch in t), f'a character of {t!r} is lost or duplicated: {got!r}')
    for ch in ''.join(split):
        got = got.replace(ch, '')
    lines = [x for x in lines if x[0] not in split]
    dropped = [i for i in range(len(lines)) if lines[i][0] not in got]
    for i in dropped:
        t = lines[i][0]
        c.check(not any(ch in got for ch in t), f'the characters of the line {t!r} do not stay together: {got!r}')
        ok = any(may_drop(c, lines[i][1], lines[j][1]) for j in range(len(lines)) if j != i)
        c.check(ok, f'the text {t!r} is lost: {got!r}')
        c.cover('dropped')
    for i, (t, _) in enumerate(lines):
        if i not in dropped:
            c.check(got.count(t) == 1, f'the text {t!r} is written {got.count(t)} times: {got!r}')
    n = sum(len(t) for i, (t, _) in enumerate(lines) if i not in dropped)
    c.check(len(got) == n, f'additional characters in the docx: {got!r}')
    if stacked:
        for i, (t, a) in enumerate(lines):
            for u, b in lines[i + 1:]:
                if t not in got or u not in got:
                    continue
                first = got.index(t) < got.index(u)
                p, r = a, b
                if blocks and blocks[t] != blocks[u]:       # different paragraphs: these have to be stacked
                    p, r = ((None, c.min(*[z[1] for w, z in lines if blocks[w] == k]), None,
                             c.max(*[z[3] for w, z in lines if blocks[w] == k])) for k in (blocks[t], blocks[u]))
                over = c.both(a[0] < b[2], b[0] < a[2])
                for w, z in lines:      # overlapping lines chained to one row have no order of their own
                    if w not in (t, u):
                        over = c.both(over, c.no(c.both(z[1] <= a[3], a[1] <= z[3], z[1] <= b[3], b[1] <= z[3])))
                if first:
                    c.check(c.no(c.both(over, r[3] <= p[1])), f'{u!r} is above {t!r} but written after it')
                else:
                    c.check(c.no(c.both(over, p[3] <= r[1])), f'{t!r} is above {u!r} but written after it')


def convert(c, p):
    doc = L.docx_of([L.parse(p)])
    got = squeeze(D.text(D.body(doc)))
    c.observe(got)
    return got


def lines_page(c):
    """Lines in one or several source blocks; each axis is symbolic for the lines listed in x, y."""
    n = c.n
    texts = ('ab', 'cd', 'ef', 'gh')[:n]
    lines = []
    for i, t in enumerate(texts):
        x0, w, y0, h = 60 + 20 * i, 200, 100 + 40 * i, 12
        if i in c.x:
            x0 = c.real(f'x{i}', 10, 500)
        if i in c.w:
            w = c.real(f'w{i}', 4, 500, EVEN)
        if i in c.y:
            y0 = c.real(f'y{i}', 10, 700)
        if i in c.h:
            h = c.real(f'h{i}', 4, 60)
        c.assume(x0 + w <= 590)
        lines.append((t, (x0, y0, x0 + w, y0 + h)))
    if c.blocks == 'any':
        split = [c.choice(f'new{i}', (False, True)) for i in range(1, n)]
    else:
        split = [c.blocks == 'each'] * (n - 1)

    def content():
        out = [[L.tline(lines[0][0], *lines[0][1])]]
        for (t, b), s in zip(lines[1:], split):
            if s:
                out.append([])
            out[-1].append(L.tline(t, *b))
        return [L.block(x) for x in out]
    got = convert(c, L.FakePage(0, 600, 800, content=content))
    judge(c, lines, got, blocks={t: sum(split[:i]) for i, (t, _) in enumerate(lines)})


def touching(c):
    """Lines one after another with hardly any space, at any height, in one source block."""
    lines, x = [], 60
    for i, t in enumerate(('abc', 'def', 'ghi', 'jkl')[:c.n]):
        y = c.real(f'y{i}', 100, 130) if i else 110
        lines.append((t, (x, y, x + 60, y + 12)))
        x += 60 + (c.choice(f'gap{i}', (-2, 0.5, 4)) if i < 2 else 1)
    got = convert(c, L.FakePage(0, 600, 800, content=lambda: [L.block([L.tline(t, *b) for t, b in lines])]))
    judge(c, lines, got)


def crosses(c, box, xs, ys):
    """One of the grid lines runs through the box."""
    return c.true(c.either(*[c.both(box[0] < x, x < box[2], box[1] < ys[-1], ys[0] < box[3]) for x in xs],
                           *[c.both(box[1] < y, y < box[3], box[0] < xs[-1], xs[0] < box[2]) for y in ys]))


def shapes_page(c):
    """Two lines and drawn shapes (a stroke, a fill or a frame) anywhere."""
    kind = c.kind
    lines = [('ab', (100, 200, 180, 212)), ('cd', (100, 240, 300, 252))]
    u, v, a, b = 90, 195, 150, 60
    if 'x' in c.free:
        u = c.real('u', 20, 400)
    if 'y' in c.free:
        v = c.real('v', 100, 400)
    if 'w' in c.free:
        a = c.real('a', 1, 190)
    if 'h' in c.free:
        b = c.real('b', 1, 190)
    cross = False
    if kind == 'hline':
        draw = lambda: [L.dline(u, v, u + a, v, 1.0)]
    elif kind == 'vline':
        draw = lambda: [L.dline(u, v, u, v + b, 1.0)]
    elif kind == 'fill':
        draw = lambda: [L.dfill(u, v, u + a, v + b)]
    else:
        draw = lambda: L.dtable((u, u + a), (v, v + b))
        cross = any(crosses(c, bx, (u, u + a), (v, v + b)) for t, bx in lines)
    got = convert(c, L.FakePage(0, 600, 800, drawings=draw, content=lambda: [
        L.block([L.tline(t, *bx) for t, bx in lines])]))
    judge(c, lines, got, stacked=not cross)


def table_page(c):
    """A ruled table of 2 x 2 cells and a line anywhere, above, below, beside, within or across it."""
    u = c.real('u', 20, 500) if 'x' in c.free else 150
    v = c.real('v', 20, 500) if 'y' in c.free else 220
    w = c.real('w', 4, 300, EVEN) if 'w' in c.free else 60
    h = c.real('h', 4, 40) if 'h' in c.free else 12
    c.assume(u + w <= 590)
    lines = [('ab', (u, v, u + w, v + h))]
    if c.more:
        lines += [('cd', (105, 205, 145, 217)), ('ef', (205, 235, 285, 247))]
        c.assume(c.either(v + h < 204, v > 249, c.both(u > 160, v + h < 225), c.both(u + w < 190, v > 220)))
    xs, ys = (100, 200, 300), (200, 230, 260)
    split = ['ab'] if crosses(c, lines[0][1], xs, ys) else []
    got = convert(c, L.FakePage(0, 600, 800, drawings=lambda: L.dtable(xs, ys),
                                content=lambda: [L.block(L.tline(t, *b)) for t, b in lines]))
    judge(c, lines, got, stacked=False, split=split)
    c.cover('split' if split else 'whole')


def vertical(c):
    """Lines reading bottom to top."""
    x0, y0, h = c.real('x', 20, 400), c.real('y', 20, 500), c.real('h', 4, 250, EVEN)
    lines = [('ab', (100, 200, 112, 300)), ('cd', (x0, y0, x0 + 12, y0 + h))]
    one = c.choice('one', (True, False))

    def content():
        ls = [L.tline(t, *b, vertical=True) for t, b in lines]
        return [L.block(ls)] if one else [L.block(l) for l in ls]
    got = convert(c, L.FakePage(0, 600, 800, content=content))
    judge(c, lines, got, stacked=False)


def mixed(c):
    """A vertical and a horizontal line."""
    x0, y0 = c.real('x', 20, 400), c.real('y', 20, 500)
    lines = [('ab', (100, 200, 112, 300)), ('cd', (x0, y0, x0 + 80, y0 + 12))]
    one = c.choice('one', (True, False))

    def content():
        ls = [L.tline('ab', *lines[0][1], vertical=True), L.tline('cd', *lines[1][1])]
        return [L.block(ls)] if one else [L.block(l) for l in ls]
    got = convert(c, L.FakePage(0, 600, 800, content=content))
    judge(c, lines, got, stacked=False)


def rotated(c):
    """Two lines on a rotated page, in reading direction of the shown page."""
    a = c.choice('angle', (90, 180, 270))
    w, h = 600, 800
    x, y = c.real('x', 20, 450), c.real('y', 20, 700)
    boxes = [('ab', (200, 300, 240, 340)), ('cd', (x, y, x + 40, y + 40))]
    vert = a in (90, 270)

    def tl(t, b):
        x0, y0, x1, y1 = b
        l = L.tline(t, *b, vertical=vert)
        if a in (180, 270):
            bs = [ch['bbox'] for ch in l['spans'][0]['chars']][::-1]
            for ch, bx in zip(l['spans'][0]['chars'], bs):
                ch['bbox'] = bx
        l['dir'] = L.READS_RIGHT[a]
        return l
    got = convert(c, L.rotated_page(a, w, h, content=lambda: [L.block(tl(t, b)) for t, b in boxes]))
    judge(c, [(t, L.rotate_box(a, w, h, b)) for t, b in boxes], got)
    c.cover(a)


TWO = dict(n=2, x=(), w=(), y=(), h=(), blocks='any')
HARNESSES = [
    Harness('two_lines_x', lines_page, 'two lines in one or two source blocks at any x, of any width',
            quick=dict(TWO, x=(0, 1), w=(0, 1))),
    Harness('two_lines_y', lines_page, 'two lines in one or two source blocks at any y, of any height',
            quick=dict(TWO, y=(0, 1), h=(0, 1)), covers=['dropped']),
    Harness('two_lines', lines_page, 'two lines in one or two source blocks, one anywhere with any size',
            quick=dict(TWO, x=(1,), w=(1,), y=(1,), h=()), thorough=dict(TWO, x=(1,), w=(1,), y=(1,), h=(1,))),
    Harness('three_lines_x', lines_page, 'three lines (quick: in one source block; thorough: in 1..3) at any x',
            quick=dict(TWO, n=3, x=(0, 1, 2), blocks='one'), thorough=dict(TWO, n=3, x=(0, 1, 2))),
    Harness('three_lines_y', lines_page, 'three lines in 1..3 source blocks at any y',
            quick=dict(TWO, n=3, y=(0, 1, 2))),
    Harness('three_lines', lines_page, 'three lines in three source blocks, two of them anywhere',
            quick=False, thorough=dict(TWO, n=3, x=(1, 2), y=(1, 2), blocks='each')),
    Harness('four_lines', lines_page, 'four lines in source blocks of their own at any x',
            quick=False, thorough=dict(TWO, n=4, x=(0, 1, 2, 3), blocks='each')),
    Harness('touching', touching, 'three touching lines at any y', quick=dict(n=3), thorough=dict(n=4)),
    Harness('hline', shapes_page, 'two lines and a horizontal stroke anywhere', quick=dict(kind='hline', free='xyw')),
    Harness('vline', shapes_page, 'two lines and a vertical stroke anywhere', quick=dict(kind='vline', free='xyh')),
    Harness('fill_w', shapes_page, 'two lines and a filled area anywhere, any width', quick=dict(kind='fill', free='xyw')),
    Harness('fill_h', shapes_page, 'two lines and a filled area anywhere, any height', quick=dict(kind='fill', free='xyh')),
    Harness('frame_w', shapes_page, 'two lines and a drawn rectangle anywhere, any width',
            quick=dict(kind='frame', free='xyw')),
    Harness('frame_h', shapes_page, 'two lines and a drawn rectangle at any y (thorough: anywhere), any height',
            quick=dict(kind='frame', free='yh'), thorough=dict(kind='frame', free='xyh')),
    Harness('table_x', table_page, 'ruled table of 2 x 2 cells and a line of any x and width',
            quick=dict(free='xw', more=False), covers=['split', 'whole']),
    Harness('table_y', table_page, 'ruled table of 2 x 2 cells and a line of any y and height',
            quick=dict(free='yh', more=False), covers=['split', 'whole']),
    Harness('table_xy', table_page, 'ruled table with text and a further line anywhere',
            quick=dict(free='xy', more=True), thorough=dict(free='xyw', more=True), covers=['split', 'whole']),
    Harness('vertical', vertical, 'two lines reading bottom to top, one anywhere'),
    Harness('mixed', mixed, 'a line reading bottom to top and one reading left to right'),
    Harness('rotated', rotated, 'two lines on pages rotated by 90, 180 and 270 degrees', covers=[90, 180, 270]),
]
