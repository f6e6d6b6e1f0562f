"""Pages with symbolic geometry that exercise every kind of content; each function returns (fake page, settings)."""
import copy

from checks import docxread as D
from checks import lib as L
from checks.c22 import png


def fake(c, *blocks, drawings=lambda: [], **kw):
    p = L.FakePage(c.params.get('number', 3), 600, 800, content=lambda: copy.deepcopy(list(blocks)), drawings=lambda: copy.deepcopy(list(drawings())), **kw)
    L.FakeDoc([p])
    return p


def text(c):
    """Two blocks of lines at any place: spacing, alignment, tabs, breaks."""
    x1, x2 = c.real('x1', 60, 240), c.real('x2', 60, 240)
    y = c.real('y', 40, 250)
    gap = c.real('gap', 0, 30)
    f = fake(c, L.block([L.tline('head', 80, y, 300, y + 12, size=11.3)]),
             L.block([L.tline('one two', 100, 300, 200, 312), L.tline('three', x1, 314, x1 + 100, 326),
                      L.tline('four', x2, 314 + c.step, x2 + 60, 326 + c.step)]),
             L.block([L.tline('tail', 100, 350 + gap, 260, 362 + gap, flags=16)]))
    return f, {}


def vertical(c):
    x = c.real('x', 100, 200)
    y = c.real('y', 100, 300)
    f = fake(c, L.block([L.tline('abc', 60, 300, 72, 400, vertical=True), L.tline('def', 80, y, 92, y + 100, vertical=True)]),
             L.block([L.tline('xyz', x, 300, x + 12, 380, vertical=True)]))
    return f, {}


def styles(c):
    """Highlight, underline, hyperlink anywhere over a line of two spans."""
    a, w = c.real('a', 90, 190), c.real('w', 10, 90)
    kind = c.choice('kind', ('highlight', 'underline', 'link'))
    flags = c.choice('flags', (0, 1, 2, 16, 18))
    sp = [L.span('abc', 100, 100, 150, 112, color=0xff0000, flags=flags), L.span('def', 150, 100, 200, 112, size=8.4, font='ABCDEF+Times,Bold')]
    draw, links = (lambda: []), (lambda: [])
    if kind == 'highlight':
        draw = lambda: [L.dfill(a, 101, a + w, 112, fill=(1.0, 1.0, 0.0))]
    elif kind == 'underline':
        draw = lambda: [L.dline(a, 111.5, a + w, 111.5, color=(0.0, 0.0, 1.0))]
    else:
        import fitz
        links = lambda: [{'kind': 2, 'from': fitz.Rect(a, 100, a + w, 112), 'uri': 'http://x/y'}]
    f = fake(c, L.block([L.line(sp), L.tline('more', 100, 114, 200, 126)]), drawings=draw, links=links)
    c.cover(kind)
    return f, {}


def lattice(c):
    """A ruled table with a merged cell, borders of any width and colour, shading and text at any place."""
    u, v = c.real('u', 150, 250), c.real('v', 220, 240)
    w = c.real('w', 0.5, 5)
    x = c.real('x', 100, 260)
    merge = c.choice('merge', ('none', 'cols', 'rows'))
    col = (1.0, 0.5, 0.0)
    draw = [L.dline(100, 200, 300, 200, w, col), L.dline(100, 260, 300, 260), L.dline(100, 200, 100, 260, 2.0), L.dline(300, 200, 300, 260)]
    draw += [L.dline(100 if merge != 'rows' else u, v, 300, v)]
    draw += [L.dline(u, 200 if merge != 'cols' else v, u, 260)]
    draw += [L.dfill(u, v, 300, 260, fill=(0.0, 0.0, 0.0) if merge == 'cols' else (0.8, 0.9, 1.0))]
    f = fake(c, L.block([L.tline('top', 100, 150, 160, 162)]), L.block([L.tline('in', x, 205, x + 40, 215)]),
             L.block([L.tline('cell', 252, 243, 280, 255)]), L.block([L.tline('end', 100, 300, 160, 312)]), drawings=lambda: draw)
    c.cover(merge)
    return f, {}


def nested(c):
    """A table within a cell."""
    u = c.real('u', 130, 180)
    draw = L.dtable((100, 300), (200, 300)) + L.dtable((120, u, 220), (230, 250, 270))
    f = fake(c, L.block([L.tline('out', 110, 210, 150, 222)]), L.block([L.tline('in', 185, 235, 210, 247)]), drawings=lambda: draw)
    return f, {}


def stream(c):
    """Text in columns without ruling."""
    x = c.real('x', 180, 380)
    y = c.real('y', 100, 120)
    f = fake(c, L.block([L.tline('a1', 60, 100, 110, 112)]), L.block([L.tline('b1', x, y, x + 60, y + 12)]),
             L.block([L.tline('a2', 60, 130, 120, 142)]), L.block([L.tline('b2', x, 130, x + 50, 142)]))
    return f, {'extract_stream_table': c.choice('stream', (True, False))}


def images(c):
    """An image beside, under or over a line of text, and a second one."""
    x, y = c.real('x', 60, 300), c.real('y', 60, 300)
    w, h = c.real('w', 10, 200), 40
    f = fake(c, L.block([L.tline('abcdef', 100, 150, 200, 162)]), L.image((x, y, x + w, y + h), png(1)),
             L.image((100, 500, 180, 560), png(2)), L.block([L.tline('end', 100, 600, 160, 612)]))
    return f, {}


def cell(c):
    """A ruled cell with styled text and a picture anywhere in or near it."""
    x, y = c.real('x', 60, 330), c.real('y', 180, 300)
    draw = L.dtable((100, 200, 300), (200, 250, 300)) + [L.dfill(105, 206, 130, 214, fill=(1.0, 1.0, 0.0)), L.dline(105, 225.5, 150, 225.5, 0.5)]
    f = fake(c, L.block([L.tline('high', 105, 205, 130, 215), L.tline('under', 105, 216, 150, 226)]), L.image((x, y, x + 30, y + 20), png(3)),
             L.block([L.tline('below', 100, 330, 180, 342)]), drawings=lambda: draw)
    return f, {}


def columns(c):
    """A page of two columns, with a ruled table in one of them."""
    x = c.real('x', 290, 340)
    y = c.real('y', 100, 140)
    draw = L.dtable((x, x + 100), (200, 230, 260))
    f = fake(c, L.block([L.tline('left one', 60, 100, 250, 112), L.tline('left two', 60, 120, 250, 132)]),
             L.block([L.tline('right', x, y, x + 180, y + 12)]), L.block([L.tline('in', x + 10, 205, x + 60, 217)]),
             L.block([L.tline('left three', 60, 240, 250, 252)]), drawings=lambda: draw)
    return f, {}


def cover(c, items):
    """Note the kinds of content written."""
    for b in items:
        if b.kind == 't':
            c.cover('table')
    for r in D.all_runs(items):
        for p in r.pics:
            c.cover('inline' if p.inline else 'float')


BUILDERS = {
    'text': (text, 'three blocks of lines at any x; any distance between blocks', dict(step=14), []),
    'text_row': (text, 'the same with two lines side by side', dict(step=0), []),
    'vertical': (vertical, 'vertical lines at any place', {}, []),
    'styles': (styles, 'style areas of any extent over two spans of any format', {}, ['highlight', 'underline', 'link']),
    'lattice': (lattice, 'ruled table, inner borders and text anywhere, one border of any width', {}, ['none', 'cols', 'rows', 'table']),
    'nested': (nested, 'a table in a cell of another one, inner border anywhere', {}, ['table']),
    'stream': (stream, 'text in columns without ruling at any place', {}, ['table']),
    'images': (images, 'an image of any place and width beside, under or over text', {}, ['inline', 'float']),
    'cell': (cell, 'styled text and a picture anywhere in or near a ruled cell', {}, ['inline', 'float', 'table']),
    'columns': (columns, 'two columns at any distance and height, with a ruled table', {}, ['table']),
}
