"""C14: re-arranging lines keeps all text and yields reading order."""
from symx.harness import Harness
from checks import lib as L

NOTE = 'Real Lines, Line, TextBlock and Blocks objects built from raw dicts; up to four lines.'
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'lines have a positive width and height and lie in the first quadrant',
               'order is judged for lines that no third line chains into one row']
OVERLAP, MERGE = 0.9, 2.0


def real_lines(c, texts, boxes, vertical=False):
    from pdf2docx.text.TextBlock import TextBlock
    return TextBlock({'lines': [L.tline(t, *b, vertical=vertical) for t, b in zip(texts, boxes)]})


def box(l):
    return tuple(l.bbox)


def same_row(c, a, b, i=1):
    """The far edge of each box is not before the centre of the other one."""
    return c.both((a[i] + a[i + 2]) <= 2 * b[i + 2], (b[i] + b[i + 2]) <= 2 * a[i + 2])


def make_boxes(c, n, vertical=False):
    out = []
    for i in range(n):
        x, w, y, h = 50 + 30 * i, 100, 50 + 30 * i, 12
        if i in c.x:
            x = c.real(f'x{i}', 0, 400)
        if i in c.w:
            w = c.real(f'w{i}', 1, 200)
        if i in c.y:
            y = c.real(f'y{i}', 0, 400)
        if i in c.h:
            h = c.real(f'h{i}', 1, 60)
        # text along y for vertical lines
        out.append((y, x, y + h, x + w) if vertical else (x, y, x + w, y + h))
    return out


def order(c, seq, vertical):
    """Reading order of boxes [(name, box)] as sorted."""
    i, f = (0, 1) if vertical else (1, 0)       # i: across the lines, f: along
    for p in range(len(seq)):
        for q in range(p + 1, len(seq)):
            (n1, a), (n2, b) = seq[p], seq[q]   # a comes before b
            others = [z for k, (n, z) in enumerate(seq) if k not in (p, q)]
            alone = c.both(*[c.no(c.both(same_row(c, z, a, i), same_row(c, z, b, i))) for z in others])
            row = same_row(c, a, b, i)
            # another row: must not be above; in a row: must not start right of it
            c.check(c.implies(c.both(alone, c.no(row)), a[i] <= b[i]), f'{n1} is below {n2} but sorted before it')
            both = c.both(*[c.no(c.either(same_row(c, z, a, i), same_row(c, z, b, i))) for z in others])
            first = a[3] >= b[3] if vertical else a[0] <= b[0]
            c.check(c.implies(c.both(both, row), first), f'{n1} is {"above" if vertical else "right of"} {n2} in the same '
                                                         'row but sorted before it')


def sorting(c):
    """Lines.sort: a permutation in reading order."""
    texts = 'abcd'[:c.n]
    tb = real_lines(c, texts, make_boxes(c, c.n, c.vertical), c.vertical)
    tb.lines.sort()
    got = [(l.text, box(l)) for l in tb.lines]
    c.check(sorted(t for t, _ in got) == sorted(texts), f'lines after sorting: {[t for t, _ in got]}')
    order(c, got, c.vertical)
    c.observe([t for t, _ in got])


def too_close(c, a, b):
    w, h = c.min(a[2], b[2]) - c.max(a[0], b[0]), c.min(a[3], b[3]) - c.max(a[1], b[1])
    area = lambda r: (r[2] - r[0]) * (r[3] - r[1])
    return c.both(w > 0, h > 0, c.either(w * h >= (OVERLAP - 0.02) * area(a), w * h >= (OVERLAP - 0.02) * area(b)))


def next_to(c, a, b):
    return c.both(same_row(c, a, b), b[0] - a[2] <= MERGE, a[2] - b[0] <= MERGE)


def joining(c):
    """Lines.join: side-by-side lines of a row are merged, nothing else changes."""
    texts = 'abcd'[:c.n]
    tb = real_lines(c, texts, make_boxes(c, c.n), False)
    boxes = {l.text: box(l) for l in tb.lines}
    tb.lines.sort()
    before = [l.text for l in tb.lines]
    tb.lines.join(OVERLAP, MERGE)
    got = [''.join(s.text for s in l.spans) for l in tb.lines]
    flat = ''.join(got)
    for t in texts:
        n = flat.count(t)
        c.check(n <= 1, f'line {t!r} is there {n} times after joining: {got}')
        if n == 0:
            c.cover('dropped')
            others = [boxes[u] for u in texts if u != t]
            c.check(c.true(c.either(*[too_close(c, boxes[t], o) for o in others])), f'line {t!r} is lost: {got}')
    c.check(len(flat) == len(set(flat)), f'additional text: {got}')
    c.check([t for t in before if t in flat] == list(flat), f'joining changes the order {before} to {got}')
    for g in got:
        if len(g) > 1:
            c.cover('joined')
        for u, v in zip(g, g[1:]):
            # next to the line before, or to a dropped line that takes the same place as the one before
            ok = [next_to(c, boxes[u], boxes[v])] + [c.both(too_close(c, boxes[u], boxes[d]), next_to(c, boxes[d], boxes[v]))
                                                     for d in texts if d not in flat]
            c.check(c.either(*ok), f'{u!r} and {v!r} are joined but not side by side in one row')
    # a line of its own keeps its box; joined lines get the box around all
    for l, g in zip(tb.lines, got):
        bs = [boxes[t] for t in g]
        want = (bs[0] if len(bs) == 1 else
                (c.min(*[b[0] for b in bs]), c.min(*[b[1] for b in bs]), c.max(*[b[2] for b in bs]), c.max(*[b[3] for b in bs])))
        c.check(c.both(*[c.near(x, y, 0.051) for x, y in zip(box(l), want)]), f'wrong box of line {g!r}')
    c.observe(got)


def pairs(c):
    """Two lines side by side are joined exactly if they are in one row and the gap is small enough."""
    a = (100, 100, 200, 112)
    x, y, h = c.real('x', 100, 300), c.real('y', 60, 150), c.real('h', 4, 40)
    b = (x, y, x + 80, y + h)
    c.assume(c.either(x >= 200, y >= 112, y + h <= 100))        # no overlap
    tb = real_lines(c, 'ab', (a, b))
    tb.lines.join(OVERLAP, MERGE)
    joined = len(tb.lines) == 1
    want = c.both(same_row(c, a, b), x <= 200 + MERGE, x >= 200 - MERGE)
    if joined:
        c.check(want, 'lines joined though not side by side')
        c.cover('joined')
    else:
        c.check(c.no(want), 'lines side by side are not joined')
    c.observe([l.text for l in tb.lines])


def back(c):
    """Blocks.join_horizontally and split_back: source paragraphs come back."""
    from pdf2docx.page.Blocks import Blocks
    from pdf2docx.text.TextBlock import TextBlock
    n = c.n
    texts = 'abcd'[:n]
    boxes = make_boxes(c, n)
    src = [0]
    for i in range(1, n):
        src.append(src[-1] + (1 if c.choice(f'new{i}', (True, False)) else 0))
    bs = [TextBlock({'lines': [L.tline(t, *b) for t, b, s in zip(texts, boxes, src) if s == k]})
          for k in range(src[-1] + 1)]
    blocks = Blocks(bs)
    blocks.sort_in_reading_order()
    blocks.join_horizontally(False, line_overlap_threshold=OVERLAP, line_merging_threshold=MERGE)
    blocks.split_back(0.1, 5.0)
    got = [[''.join(s.text for s in l.spans) for l in b.lines] for b in blocks]
    flat = ''.join(''.join(g) for g in got)
    c.observe(got)
    bx, sr = dict(zip(texts, boxes)), dict(zip(texts, src))
    for t in texts:
        c.check(flat.count(t) <= 1, f'line {t!r} duplicated: {got}')
        if t not in flat:
            c.check(c.true(c.either(*[too_close(c, bx[t], bx[u]) for u in texts if u != t])), f'line {t!r} is lost: {got}')
    c.check(len(flat) == len(set(flat)), f'additional text: {got}')
    # paragraphs whose lines are in no common row with any other paragraph come back as they were
    for k in range(src[-1] + 1):
        mine = [t for t in texts if sr[t] == k]
        apart = c.both(*[c.either(bx[t][3] < bx[u][1], bx[u][3] < bx[t][1]) for t in texts for u in texts
                         if t < u and (sr[t] == k or sr[u] == k)])
        if c.true(apart):
            c.check([mine] == [sorted(g) for g in got if set(''.join(g)) & set(mine)],
                    f'source paragraph {mine} is not restored: {got}')
            c.cover('restored')


Z = dict(x=(), y=(), w=(), h=(), vertical=False)
HARNESSES = [
    Harness('sort2', sorting, 'two lines, anywhere, of any size', quick=dict(Z, n=2, x=(0, 1), y=(0, 1), h=(0, 1), w=(0, 1))),
    Harness('sort3', sorting, 'three lines anywhere; thorough: of any height',
            quick=dict(Z, n=3, x=(0, 1, 2), y=(0, 1, 2)), thorough=dict(Z, n=3, x=(0, 1, 2), y=(0, 1, 2), h=(0, 1, 2))),
    Harness('sort4', sorting, 'four lines anywhere', quick=False, thorough=dict(Z, n=4, x=(0, 1, 2, 3), y=(0, 1, 2, 3))),
    Harness('sort2v', sorting, 'two vertical lines, anywhere, of any size',
            quick=dict(Z, n=2, x=(0, 1), y=(0, 1), h=(0, 1), w=(0, 1), vertical=True)),
    Harness('sort3v', sorting, 'three vertical lines anywhere', quick=dict(Z, n=3, x=(0, 1, 2), y=(0, 1, 2), vertical=True)),
    Harness('pairs', pairs, 'two lines that do not overlap, one anywhere', covers=['joined']),
    Harness('join2', joining, 'two lines, any x, y, width', quick=dict(Z, n=2, x=(0, 1), y=(0, 1), w=(0,)),
            thorough=dict(Z, n=2, x=(0, 1), y=(0, 1), w=(0, 1)), covers=['joined', 'dropped']),
    Harness('join3', joining, 'three lines, any x and y', quick=dict(Z, n=3, x=(0, 1, 2), y=(1,)),
            thorough=dict(Z, n=3, x=(0, 1, 2), y=(0, 1, 2)), covers=['joined']),
    Harness('join3_row', joining, 'three lines of 12 pt height that may share a row, two at any x and y',
            quick=dict(Z, n=3, x=(1, 2), y=(1, 2)), thorough=dict(Z, n=3, x=(1, 2), y=(1, 2), w=(1,), h=(2,)), covers=['joined']),
    Harness('back3', back, 'three lines in 1..3 source paragraphs, any y', quick=dict(Z, n=3, y=(0, 1, 2)),
            thorough=dict(Z, n=3, y=(0, 1, 2), x=(0, 1, 2)), covers=['restored']),
    Harness('back4', back, 'four lines in 1..4 source paragraphs, any y', quick=False,
            thorough=dict(Z, n=4, y=(0, 1, 2, 3)), covers=['restored']),
]
