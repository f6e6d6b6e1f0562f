"""C07: applying text styles keeps every character and styles only what is covered."""
from fractions import Fraction

from symx.harness import Harness
from checks import docxread as D
from checks import lib as L

NOTE = 'Full page parse and docx writing; lines of up to six characters, up to three lines and three style areas.'
ASSUMPTIONS = ['style areas and text boxes on a 0.1 pt grid', 'coverage of a character is judged when it differs from one half by '
               'more than 0.1 pt', 'highlight areas do not cover three quarters of a text line or block (cell shading otherwise)']
URI = 'http://a.b/'


def charboxes(text, box, vertical):
    x0, y0, x1, y1 = box
    n = len(text)
    for i, ch in enumerate(text):
        if vertical:
            h = (y1 - y0) / n
            yield ch, (x0, y1 - h * (i + 1), x1, y1 - h * i)
        else:
            w = (x1 - x0) / n
            yield ch, (x0 + w * i, y0, x0 + w * (i + 1), y1)


def styles(run):
    out = []
    if run.link is not None:
        out.append(('link', run.link))
    if run.strike:
        out.append(('strike', None))
    if run.underline:
        out.append(('underline', None if run.ucolor is None else run.ucolor))
    if run.highlight is not None or run.shade is not None:
        out.append(('mark', run.highlight or run.shade))
    return out


def written(c, items, texts):
    """{char: styles}; every character once, lines in order."""
    got = {}
    flat = ''
    for r in D.all_runs(items):
        for ch in r.text:
            if not ch.isspace():
                c.check(ch not in got, f'character {ch!r} is written twice')
                got[ch] = styles(r)
                flat += ch
    c.check(sorted(flat) == sorted(''.join(texts)), f'text is {flat!r}')
    for t in texts:
        mine = ''.join(ch for ch in flat if ch in t)
        c.check(mine == t, f'characters of {t!r} are written as {mine!r}')
    c.observe(sorted((k, str(v)) for k, v in got.items()))
    return got


def common(c, a0, a1, b0, b1):
    return c.min(a1, b1) - c.max(a0, b0)


def covered(c, b, area, vertical):
    """(surely covered, surely not covered) along the reading direction."""
    i = 1 if vertical else 0
    d = common(c, b[i], b[i + 2], area[i], area[i + 2])
    w = b[i + 2] - b[i]
    return 2 * d > w + 0.2, 2 * d < w - 0.2


def page(c, lines, drawings=lambda: [], links=lambda: [], blocks=None, spans=None):
    def content():
        ls = []
        for k, (t, b, v) in enumerate(lines):
            if spans and k in spans:
                out, at = [], 0
                cb = list(charboxes(t, b, v))
                for n in spans[k]:
                    part = cb[at:at + n]
                    out.append(L.span(t[at:at + n], part[0][1][0], part[0][1][1], part[-1][1][2], part[-1][1][3]))
                    at += n
                ls.append(L.line(out, v))
            else:
                ls.append(L.tline(t, *b, vertical=v))
        if blocks is None:
            return [L.block(ls)]
        return [L.block([l for l, k in zip(ls, blocks) if k == j]) for j in sorted(set(blocks))]
    p = L.FakePage(0, 600, 800, content=content, drawings=drawings, links=links)
    doc = L.docx_of([L.parse(p)])
    return written(c, D.body(doc), [t for t, _, _ in lines])


def link(area, uri=URI):
    import fitz
    return {'kind': 2, 'from': fitz.Rect(*area), 'uri': uri, 'xref': 1}


def expect(c, got, lines, area, name, value, applies, not_applies, cap=0):
    """Characters covered by the area carry the style if applies(line), those not covered never do.
    The ends of a drawn line may reach further by a cap."""
    for t, b, v in lines:
        for ch, q in charboxes(t, b, v):
            has = any(n == name and (value is None or x == value) for n, x in got[ch])
            more, _ = covered(c, q, area, v)
            _, less = covered(c, q, (area[0] - cap, area[1] - cap, area[2] + cap, area[3] + cap), v)
            if has:
                c.check(c.no(c.either(less, not_applies(b))), f'character {ch!r} gets {name} though it is not covered by it')
                c.cover('styled')
            else:
                c.check(c.no(c.both(more, applies(b))), f'character {ch!r} is covered by {name} but does not get it')
                c.cover('plain')


def other(c, got, allowed):
    for ch, st in got.items():
        c.check(len(st) == len(set(n for n, _ in st)), f'{ch!r}: a style is applied twice: {st}')
        c.check(all(n in allowed for n, _ in st), f'{ch!r} gets a style no area stands for: {st}')


def span_of(c, along, lo, hi):
    a0, d = c.real('a', lo, hi), c.real('d', 0.2, hi - lo)
    c.assume(a0 + d <= hi + 40)
    return a0, a0 + d


def hyperlink(c):
    """A link area anywhere over one of three lines."""
    v = c.vertical
    lines = [('abc', (100, 100, 160, 112), v), ('def', (100, 114, 160, 126), v), ('ghi', (100, 128, 130, 140), v)]
    if v:
        lines = [(t, (b[1], b[0], b[3], b[2]), v) for t, b, _ in lines]
    if c.axis == 'along':
        a0, a1 = span_of(c, 0, 60, 190)
        h0, h1 = c.choice('h', ((114, 126), (110, 128), (99, 142)))
    else:
        a0, a1 = 95, 145
        h0 = c.real('h0', 80, 150)
        h1 = h0 + c.real('dh', 0.2, 50)
    area = (h0, a0, h1, a1) if v else (a0, h0, a1, h1)
    got = page(c, lines, links=lambda: [link(area)])
    i = 0 if v else 1

    def cross(b):
        return common(c, b[i], b[i + 2], area[i], area[i + 2])

    expect(c, got, lines, area, 'link', URI, lambda b: 2 * cross(b) > 12.2, lambda b: cross(b) <= 0)
    # an area larger than a line height belongs only to lines it covers by half
    expect(c, got, lines, area, 'link', URI, lambda b: False,
           lambda b: c.both(area[i + 2] - area[i] >= 12, 2 * cross(b) < 11.8))
    other(c, got, ('link',))


def highlight(c):
    """A coloured area along one line of two or three in a block."""
    v = c.vertical
    lines = [('abcdef', (100, 100, 160, 112), v), ('ghijkl', (100, 118, 160, 130), v)]
    if v:
        lines = [(t, (b[1], b[0], b[3], b[2]), v) for t, b, _ in lines]
    a0, a1 = span_of(c, 0, 80, 170)
    c.assume(c.min(a1, 160) - c.max(a0, 100) <= 42)       # no cell shading
    k = c.pick('line', 0, 1)
    i = 0 if v else 1
    h0, h1 = lines[k][1][i] + 0.5, lines[k][1][i + 2] - 0.5
    area = (h0, a0, h1, a1) if v else (a0, h0, a1, h1)
    colour = c.choice('colour', ((1, 1, 0), (0.2, 0.4, 0.8)))
    got = page(c, lines, drawings=lambda: [L.dfill(*area, fill=colour)])
    value = 'yellow' if colour == (1, 1, 0) else 0x3366cc
    on = lambda b: b is lines[k][1]
    thin = c.both(a1 - a0 <= 6)
    expect(c, got, lines, area, 'mark', value, lambda b: c.both(on(b), c.no(thin)), lambda b: not on(b))
    other(c, got, ('mark', 'underline', 'strike'))
    for ch, st in got.items():
        for n, _ in st:
            c.check(c.either(n == 'mark', thin), f'{ch!r} gets {n} from a highlight area')


def stroke(c):
    """A drawn line below, through or above one of two lines of text."""
    v = c.vertical
    lines = [('abcdef', (100, 100, 160, 120), v), ('ghijkl', (100, 125, 160, 145), v)]
    if v:
        lines = [(t, (b[1], b[0], b[3], b[2]), v) for t, b, _ in lines]
    i = 0 if v else 1
    if c.axis == 'along':
        a0, a1 = span_of(c, 0, 80, 170)
        y = c.choice('y', (118, 110, 103, 135))
    else:
        a0, a1 = 95, 131
        y = c.real('y', 90, 155)
    area = (y - 0.5, a0, y + 0.5, a1) if v else (a0, y - 0.5, a1, y + 0.5)
    blue = c.choice('blue', (False, True))
    got = page(c, lines, drawings=lambda: [L.dline(*((y, a0, y, a1) if v else (a0, y, a1, y)),
                                                   color=(0, 0, 1) if blue else (0, 0, 0))])
    # distance of the upper edge of the drawn line to the bottom of the text, as a part of the line height
    pos = lambda b: b[i + 2] - (y - 0.5)
    expect(c, got, lines, area, 'underline', None, lambda b: c.both(pos(b) >= 0.2, pos(b) <= 4.8),
           lambda b: c.either(pos(b) < -0.2, pos(b) > 5.2), 0.5)
    expect(c, got, lines, area, 'strike', None, lambda b: c.both(pos(b) >= 7.2, pos(b) <= 14.8),
           lambda b: c.either(pos(b) < 6.8, pos(b) > 15.2), 0.5)
    other(c, got, ('underline', 'strike'))
    for st in got.values():
        for n, x in st:
            if n == 'underline':
                c.check(x in ((0x0000ff,) if blue else (None, 0)), f'underline colour is {x}')


def combined(c):
    """Highlight, link and underline with independent extents over one line."""
    lines = [('abcdef', (100, 100, 160, 112), False), ('ghijkl', (100, 118, 160, 130), False)]
    m0 = c.real('m', 95, 150, Fraction(1, 2))
    m1 = m0 + c.real('dm', 7, 40, Fraction(1, 2))
    k0 = c.real('k', 90, 165, Fraction(1, 2))
    k1 = k0 + c.real('dk', 1, 70, Fraction(1, 2))
    u0 = c.real('u', 95, 150, Fraction(1, 2)) if c.three else 95
    u1 = u0 + 30
    mark, hot, under = (m0, 100.5, m1, 111.5), (k0, 100, k1, 112), (u0, 110, u1, 111)
    draw = [L.dfill(*mark, fill=(0, 1, 0))]
    if c.three:
        draw.append(L.dline(u0 + 0.5, 110.5, u1 - 0.5, 110.5))
    got = page(c, lines, drawings=lambda: list(draw), links=lambda: [link(hot)],
               spans={0: (2, 4)} if c.choice('spans', (False, True)) else None)
    first = lambda b: b is lines[0][1]
    expect(c, got, lines, hot, 'link', URI, first, lambda b: not first(b))
    expect(c, got, lines, mark, 'mark', 'green', lambda b: False, lambda b: not first(b))
    if c.three:
        expect(c, got, lines, under, 'underline', None, first, lambda b: not first(b))
    other(c, got, ('link', 'mark') + (('underline',) if c.three else ()))


def two_links(c):
    """Two links with different addresses over two blocks; text is linked to the address that covers it."""
    lines = [('abcd', (100, 100, 160, 112), False), ('efgh', (200, 150, 260, 162), False)]
    other_uri = 'https://c.d/e?f=1&g#h'
    x = c.real('x', 90, 160)
    y = c.real('y', 190, 260)
    w, u = c.real('w', 1, 80), c.real('u', 1, 80)
    one, two = (x, 100, x + w, 112), (y, 150, y + u, 162)
    got = page(c, lines, links=lambda: [link(one), link(two, other_uri)], blocks=(0, 1))
    expect(c, got, lines[:1], one, 'link', URI, lambda b: True, lambda b: False)
    expect(c, got, lines[1:], two, 'link', other_uri, lambda b: True, lambda b: False)
    other(c, got, ('link',))


def uneven(c):
    """A link over a line beside another one that starts elsewhere."""
    v = c.vertical
    d = c.real('d', -6, 6) if not v else c.real('d', -150, 150)
    if v:
        lines = [('abc', (100, 300, 112, 360), v), ('def', (120, 300 + d, 132, 360 + d), v)]
        k = c.real('k', -30, 30)
        area = (120, 300 + d + k, 132, 360 + d + k)
    else:
        lines = [('abc', (100, 300, 160, 312), v), ('def', (170, 300 + d, 230, 312 + d), v)]
        k = c.real('k', -3, 8)
        area = (170, 300 + d - k, 230, 308 + d - k)
    got = page(c, lines, links=lambda: [link(area)])
    i = 0 if v else 1
    cross = lambda b: common(c, b[i], b[i + 2], area[i], area[i + 2])
    expect(c, got, lines, area, 'link', URI, lambda b: 2 * cross(b) > 8.2 + 4 * v, lambda b: cross(b) <= 0)
    other(c, got, ('link',))


def in_table(c):
    """A link over text in a table, reaching beyond the table or not."""
    if c.ruled:
        lines = [('abc', (105, 205, 165, 217), False), ('def', (205, 205, 265, 217), False)]
        blocks = None if not c.params.get('blocks') else [0, 1]
        draws = lambda: L.dtable((100, 200, 300), (200, 225))
    else:
        lines = [(t, (x, y, x + 60, y + 12), False) for t, x, y in
                 (('abc', 100, 200), ('def', 300, 200), ('ghi', 100, 220), ('jkl', 300, 220))]
        blocks, draws = [0, 1, 2, 3], lambda: []
    if c.axis == 'along':
        a0 = c.real('a', 60, 190)
        a1 = a0 + c.real('d', 0.2, 200)
        h0, h1 = 204, 218
    else:
        a0, a1 = c.choice('w', ((100, 170), (90, 150)))
        h0 = c.real('h0', 185, 215)
        h1 = h0 + c.real('dh', 0.2, 40)
    area = (a0, h0, a1, h1)
    got = page(c, lines, drawings=draws, links=lambda: [link(area)], blocks=blocks)
    cross = lambda b: common(c, b[1], b[3], area[1], area[3])
    expect(c, got, lines, area, 'link', URI, lambda b: 2 * cross(b) > 12.2, lambda b: cross(b) <= 0)
    other(c, got, ('link',))


HARNESSES = [
    Harness('link_along', hyperlink, 'link area of any extent along three lines', quick=dict(axis='along', vertical=False),
            covers=['styled', 'plain']),
    Harness('link_across', hyperlink, 'link area of any extent across three lines', quick=dict(axis='across', vertical=False),
            covers=['styled', 'plain']),
    Harness('link_vertical', hyperlink, 'link area of any extent along three vertical lines',
            quick=dict(axis='along', vertical=True), covers=['styled', 'plain']),
    Harness('mark', highlight, 'highlight of any extent along one of two lines', quick=dict(vertical=False),
            covers=['styled', 'plain']),
    Harness('mark_vertical', highlight, 'highlight of any extent along one of two vertical lines', quick=dict(vertical=True),
            covers=['styled', 'plain']),
    Harness('stroke_along', stroke, 'drawn line of any extent along two lines', quick=dict(axis='along', vertical=False),
            covers=['styled', 'plain']),
    Harness('stroke_across', stroke, 'drawn line at any height of two lines', quick=dict(axis='across', vertical=False),
            covers=['styled', 'plain']),
    Harness('stroke_vertical', stroke, 'drawn line at any place across two vertical lines',
            quick=dict(axis='across', vertical=True), covers=['styled', 'plain']),
    Harness('combined', combined, 'highlight and link (thorough: and underline) of any extents over one line of one or two spans',
            quick=dict(three=False), thorough=dict(three=True), covers=['styled', 'plain']),
    Harness('two_links', two_links, 'two links of any extents over two blocks', quick={}, covers=['styled', 'plain']),
    Harness('uneven', uneven, 'a link over a line beside another one, which starts anywhere', quick=dict(vertical=False), covers=['styled', 'plain']),
    Harness('uneven_vertical', uneven, 'a link over a vertical line beside another one, which starts anywhere', quick=dict(vertical=True), covers=['styled', 'plain']),
    Harness('ruled_along', in_table, 'link area of any extent along the text of a ruled table, beyond the table or not',
            quick=dict(ruled=True, axis='along'), covers=['styled', 'plain']),
    Harness('ruled_across', in_table, 'the same across the text', quick=dict(ruled=True, axis='across'), covers=['styled', 'plain']),
    Harness('unruled_along', in_table, 'link area of any extent along the text of a table without lines',
            quick=dict(ruled=False, axis='along'), covers=['styled', 'plain']),
    Harness('unruled_across', in_table, 'the same across the text', quick=dict(ruled=False, axis='across'), covers=['styled', 'plain']),
]
