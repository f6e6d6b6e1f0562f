"""C09: colours survive conversion."""
from fractions import Fraction

from symx.harness import Harness
from checks import docxread as D
from checks import lib as L

NOTE = 'All 24-bit values; all colour components on a grid of 1/1000 (thorough: 1/10000), for text, marks, underlines, borders and fills.'
ASSUMPTIONS = ['colour components in [0,1], exact arithmetic in place of floating point']
NAMES = {'red': 0xff0000, 'green': 0x00ff00, 'blue': 0x0000ff, 'yellow': 0xffff00, 'magenta': 0xff00ff, 'cyan': 0x00ffff}


def comp(c, name):
    return c.real(name, 0, 1, Fraction(1, c.grid))


def channels(v):
    r = v // 65536
    g = (v - r * 65536) // 256
    return r, g, v - r * 65536 - g * 256


def close(c, v, exact, what):
    """Each channel of the 24-bit value differs from the exact one by less than one level."""
    c.check(c.both(v >= 0, v <= 0xffffff), f'{what}: colour value out of range')
    for k, (got, x) in enumerate(zip(channels(v), exact)):
        c.check(c.both(got - 255 * x < 1, 255 * x - got < 1), f'{what}: channel {"RGB"[k]} is off by a level or more')
        c.check(c.both(c.implies(x >= 1, got >= 255), c.implies(x <= 0, got <= 0)), f'{what}: channel {"RGB"[k]}: 0 or 1 is not exact')


def inputs(c):
    """(components as found in a PDF, exact RGB)"""
    if c.mode == 'gray':
        g = comp(c, 'g')
        return (g,), (g, g, g)
    if c.mode == 'rgb':
        v = comp(c, 'r'), comp(c, 'g'), comp(c, 'b')
        return v, v
    v = comp(c, 'c'), comp(c, 'm'), comp(c, 'y'), comp(c, 'k')
    if c.fix is not None:
        v = v[:3] + (c.fix,)
    return v, tuple((1 - x) * (1 - v[3]) for x in v[:3])


def arithmetic(c):
    from pdf2docx.common import share
    v, exact = inputs(c)
    got = share.rgb_value(list(v))
    c.observe(got)
    close(c, got, exact, f'{c.mode} value')


def split(c):
    """Every 24-bit value is split into its three bytes."""
    from pdf2docx.common import share
    v = c.int('v', 0, 0xffffff)
    r, g, b = share.rgb_component(v)
    c.check(r * 65536 + g * 256 + b == v, 'channels do not add up to the colour value')
    for x in (r, g, b):
        c.check(c.both(x >= 0, x <= 255), 'channel out of range')
    c.observe([r, g, b])


def text_colour(c):
    v = c.int('v', 0, 0xffffff)
    p = L.FakePage(0, 600, 800, content=lambda: [L.block([L.tline('abc', 100, 100, 160, 112, color=v)])])
    runs = [r for r in D.all_runs(D.body(L.docx_of([L.parse(p)]))) if 'a' in r.text]
    c.check(len(runs) == 1 and runs[0].color is not None, 'text without colour')
    c.check(runs[0].color == v, 'text is written in another colour')
    c.observe(runs[0].color)


def mark_colour(c):
    """Highlight or underline of text: the colour of the drawing."""
    v, exact = inputs(c)
    if c.kind == 'mark':
        c.assume(c.either(*[x <= 0.99 for x in exact]))       # white is no mark
        draw = L.dfill(100, 100.5, 120, 111.5, fill=v)
    else:
        draw = L.dline(100, 110.5, 140, 110.5, color=v)
    p = L.FakePage(0, 600, 800, drawings=lambda: [draw], content=lambda: [
        L.block([L.tline('abcdef', 100, 100, 160, 112, color=0x123456)])])
    runs = [r for r in D.all_runs(D.body(L.docx_of([L.parse(p)]))) if 'a' in r.text]
    c.check(len(runs) == 1, 'text is written several times')
    r = runs[0]
    if c.kind == 'mark':
        got = NAMES[r.highlight] if r.highlight is not None else r.shade
        c.cover('named' if r.highlight is not None else 'shade')
    else:
        got = None
        if r.underline:
            got = 0x123456 if r.ucolor is None else r.ucolor
        c.cover('named' if r.ucolor is None else 'shade')
    c.check(got is not None, f'the {c.kind} is not written')
    if got is not None:
        close(c, got, exact, c.kind)
        c.observe(got)


def table_colour(c):
    """Colours of the borders and the fill of a table cell."""
    v, exact = inputs(c)
    xs, ys = (100, 200, 300), (100, 130, 160)

    def draw():
        if c.kind == 'border':
            return [L.dline(100, y, 300, y, 1, v) for y in ys] + [L.dline(x, 100, x, 160, 1, v) for x in xs]
        return L.dtable(xs, ys) + [L.dfill(100, 100, 200, 130, fill=v)]
    if c.kind == 'fill':
        c.assume(c.either(*[x <= 0.99 for x in exact]))
    p = L.FakePage(0, 600, 800, drawings=draw, content=lambda: [L.block([L.tline('ab', 110, 108, 150, 120)])])
    ts = [b for b in D.body(L.docx_of([L.parse(p)])) if b.kind == 't']
    c.check(len(ts) == 1, f'{len(ts)} tables')
    cells = [x for r in ts[0].rows for x in r.cells]
    c.check(len(cells) == 4, f'{len(cells)} cells')
    if c.kind == 'border':
        for cell in cells:
            c.check(len(cell.borders) == 4, f'{len(cell.borders)} borders of a cell')
            for k, b in cell.borders.items():
                close(c, b.color, exact, f'{k} border')
        c.observe(cells[0].borders['top'].color)
    else:
        c.check(cells[0].shade is not None and all(x.shade in (None, 'auto') for x in cells[1:]), 'fill of the wrong cell')
        if cells[0].shade is not None:
            close(c, cells[0].shade, exact, 'fill')
            c.observe(cells[0].shade)


Q, T = dict(grid=1000, fix=None), dict(grid=10000, fix=None)
HARNESSES = [
    Harness('gray', arithmetic, 'all gray levels', quick=dict(Q, mode='gray'), thorough=dict(T, mode='gray')),
    Harness('rgb', arithmetic, 'all RGB components', quick=dict(Q, mode='rgb'), thorough=dict(T, mode='rgb')),
    Harness('cmyk', arithmetic, 'all CMYK components', quick=dict(Q, mode='cmyk', grid=100), thorough=dict(T, mode='cmyk', grid=1000)),
    Harness('cmyk_black', arithmetic, 'all CMY components, black fixed at 1', quick=dict(Q, mode='cmyk', fix=1)),
    Harness('cmyk_half', arithmetic, 'all CMY components, black fixed at 0.37', quick=dict(Q, mode='cmyk', fix=0.37)),
    Harness('split', split, 'all 24-bit values'),
    Harness('text', text_colour, 'all 24-bit text colours'),
    Harness('mark', mark_colour, 'highlights of all RGB colours', quick=dict(Q, mode='rgb', kind='mark'),
            thorough=dict(T, mode='rgb', kind='mark'), covers=['named', 'shade']),
    Harness('mark_gray', mark_colour, 'highlights of all gray levels', quick=dict(Q, mode='gray', kind='mark'), covers=['shade']),
    Harness('underline', mark_colour, 'underlines of all RGB colours', quick=dict(Q, mode='rgb', kind='underline'),
            thorough=dict(T, mode='rgb', kind='underline'), covers=['named', 'shade']),
    Harness('border', table_colour, 'table borders of all RGB colours', quick=dict(Q, mode='rgb', kind='border'),
            thorough=dict(T, mode='rgb', kind='border')),
    Harness('fill', table_colour, 'cell fills of all RGB colours', quick=dict(Q, mode='rgb', kind='fill'),
            thorough=dict(T, mode='rgb', kind='fill')),
]
