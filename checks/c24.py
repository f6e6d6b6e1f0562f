"""C24: stripping blanks removes only redundant blanks."""
from fractions import Fraction

from symx.harness import Harness
from checks import docxread as D
from checks import lib as L

NOTE = 'Real TextBlock.strip and the whole page pipeline; up to six characters in up to three spans, every pattern of blanks.'
ASSUMPTIONS = ['positive character widths on a 0.1 pt grid']


def make(c, texts, vertical, x0=100):
    """Line of spans with characters of any width; (line dict, [(char, box)])."""
    y0, y1 = 100, 112
    spans, boxes, x = [], [], x0
    k = 0
    for t in texts:
        cs, a = [], x
        for ch in t:
            w = c.real(f'w{k}', 0.2, 30) if k in c.sym else 6
            b = (y0, 500 - x - w, y1, 500 - x) if vertical else (x, y0, x + w, y1)
            cs.append({'c': ch, 'bbox': b, 'origin': (b[0], b[3])})
            boxes.append((ch, b))
            x = x + w
            k += 1
        s = L.span(t, *((y0, 500 - x, y1, 500 - a) if vertical else (a, y0, x, y1)))
        s['chars'] = cs
        spans.append(s)
    return L.line(spans, vertical), boxes


def union(c, bs):
    return (c.min(*[b[0] for b in bs]), c.min(*[b[1] for b in bs]), c.max(*[b[2] for b in bs]), c.max(*[b[3] for b in bs]))


def pattern(c, cuts):
    """Text of blanks and letters, split into spans of the given lengths."""
    n = sum(cuts)
    t = ''.join(c.choice(f'c{i}', (' ', 'abcdefgh'[i])) for i in range(n))
    out, at = [], 0
    for k in cuts:
        out.append(t[at:at + k])
        at += k
    return out


def ends(t):
    """Leading and trailing blanks."""
    return len(t) - len(t.lstrip(' ')), len(t) - len(t.rstrip(' '))


def strip(c):
    from pdf2docx.text.TextBlock import TextBlock
    texts = pattern(c, c.cuts)
    full = ''.join(texts)
    ld, boxes = make(c, texts, c.vertical)
    d2, boxes2 = make_plain('xy', c.vertical)
    tb = TextBlock({'lines': [ld, d2]})
    tb.strip()
    c.check(len(tb.lines) == 2, f'{len(tb.lines)} lines after stripping two')
    ln = list(tb.lines)[0]
    got = [(ch.c, tuple(ch.bbox)) for s in ln.spans for ch in s.chars]
    text = ''.join(ch for ch, _ in got)
    c.observe(text)
    c.check(text.strip(' ') == full.strip(' '), f'{full!r} becomes {text!r}')
    (l0, r0), (l1, r1) = ends(full), ends(text)
    if full.strip(' '):
        c.check(l1 >= min(l0, 1) and r1 >= min(r0, 1), f'all blanks at one end of {full!r} are removed: {text!r}')
        c.check(l1 <= l0 and r1 <= r0, f'blanks are added: {full!r} becomes {text!r}')
        a, b = ends(texts[0])[0], ends(texts[-1])[1]
        if a < len(texts[0]):
            c.check(l1 <= 1, f'leading blanks of {full!r} are left: {text!r}')
        if b < len(texts[-1]):
            c.check(r1 <= 1, f'trailing blanks of {full!r} are left: {text!r}')
        if l1 < l0 or r1 < r0:
            c.cover('stripped')
        if l1 < l0 and r1 < r0:
            c.cover('both')
        # the remaining characters are the very same ones, at their place
        rest = boxes[l0 - l1:len(boxes) - (r0 - r1)]
    else:
        c.check(1 <= len(text) <= len(full) or not full, f'blank line {full!r} becomes {text!r}')
        rest = None
        c.cover('blank')
    bs = [b for _, b in got]
    if rest is not None:
        for (_, b), (_, q) in zip(got, rest):
            c.check(c.both(*[c.near(u, v, 0.051) for u, v in zip(b, q)]), 'a character moves')
    want = union(c, bs)
    c.check(c.both(*[c.near(u, v, 0.11) for u, v in zip(tuple(ln.bbox), want)]),
            f'the line box is not the box of its characters: {full!r}')
    c.check(tuple(list(tb.lines)[1].bbox) == boxes2 and list(tb.lines)[1].text == 'xy', 'another line changes')
    want = union(c, bs + [boxes2])
    c.check(c.both(*[c.near(u, v, 0.11) for u, v in zip(tuple(tb.bbox), want)]), 'the block box is not that of its lines')
    for s in ln.spans:
        if s.chars:
            w = union(c, [tuple(ch.bbox) for ch in s.chars])
            c.check(c.both(*[c.near(u, v, 0.11) for u, v in zip(tuple(s.bbox), w)]), 'the span box is not that of its characters')


def make_plain(t, vertical):
    b = (120, 400, 132, 500) if vertical else (100, 120, 200, 132)
    return L.tline(t, *b, vertical=vertical), b


def page(c):
    """Lines of a page: all letters and inner blanks reach the docx, a line that is only blanks is no text."""
    texts = pattern(c, c.cuts)
    full = ''.join(texts)
    ld, _ = make(c, texts, False)

    p = L.FakePage(0, 600, 800, content=lambda: [L.block([L.tline('first', 100, 60, 160, 72)]), L.block([ld]),
                                                 L.block([L.tline('last', 100, 140, 160, 152)])])
    text = D.text(D.body(L.docx_of([L.parse(p)])))
    c.observe(text)
    core = full.strip(' ')
    c.check(' '.join(text.split()).replace('first', '', 1).replace('last', '', 1).strip() == ' '.join(core.split()),
            f'{full!r} is written as {text!r}')
    if core:
        c.check(core in text, f'inner blanks of {full!r} are lost: {text!r}')
        c.cover('text')


HARNESSES = [
    Harness('one_span', strip, 'one span of five characters, every pattern of blanks; widths of three of them',
            quick=dict(cuts=(5,), sym=(0, 2, 4), vertical=False), thorough=dict(cuts=(7,), sym=(0, 2, 4, 6), vertical=False),
            covers=['stripped', 'both', 'blank']),
    Harness('two_spans', strip, 'spans of three and two characters', quick=dict(cuts=(3, 2), sym=(0, 4), vertical=False),
            thorough=dict(cuts=(4, 3), sym=(0, 3, 6), vertical=False), covers=['stripped', 'both', 'blank']),
    Harness('three_spans', strip, 'spans of three, one and three characters', quick=dict(cuts=(3, 1, 3), sym=(0, 6), vertical=False),
            thorough=dict(cuts=(3, 2, 3), sym=(0, 4, 7), vertical=False), covers=['stripped', 'both', 'blank']),
    Harness('vertical', strip, 'vertical text in spans of three and two characters', quick=dict(cuts=(3, 2), sym=(0, 4), vertical=True),
            covers=['stripped', 'both', 'blank']),
    Harness('page', page, 'a line of two spans of three and two characters in a page', quick=dict(cuts=(3, 2), sym=()),
            thorough=dict(cuts=(4, 3), sym=()), covers=['text']),
]
