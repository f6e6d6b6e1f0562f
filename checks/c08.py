"""C08: runs written to the docx carry the font properties of the source text."""
from fractions import Fraction

from symx.harness import Harness
from checks import docxread as D
from checks import lib as L

NOTE = 'Every flag word of 8 bits, every size from 0.1 to 200 pt, every colour, every list of up to three styles; whole pages.'
ASSUMPTIONS = ['sizes of at least 0.1 pt; text below half a point is written in half a point, scaled']
URI = 'https://a.b/c?d=e&f#g'


def char_runs(items):
    """[(character, run)] of the written text, without white space."""
    return [(ch, r) for r in D.all_runs(items) for ch in r.text if not ch.isspace()]


def check_text(c, pairs, text):
    got = ''.join(ch for ch, _ in pairs)
    c.observe(got)
    c.check(got == text, f'text {text!r} is written as {got!r}')


def check_flags(c, r, flags, k):
    bit = lambda n: (flags // (1 << n)) % 2 == 1
    for name, n in (('bold', 4), ('italic', 1), ('sup', 0)):
        c.check(c.implies(bit(n), getattr(r, name)), f'{name} of span {k} is lost')
        c.check(c.implies(c.no(bit(n)), not getattr(r, name)), f'{name} of span {k} is not in the source')
        if getattr(r, name):
            c.cover(name)


def check_size(c, r, size, k):
    c.check(r.size is not None, f'span {k} is written without size')
    w = r.size * r.scale
    c.check(c.both(w <= size * 1.0102, w >= size * 0.9899), f'size times scaling of span {k} is not the size in the source')
    c.check(c.both(r.size - c.max(size, 0.5) <= 0.26, size - r.size <= 0.26), f'written size of span {k} is more than a quarter point off')


def line_of(texts, kws, vertical=False):
    spans, x = [], 100
    for t, kw in zip(texts, kws):
        b = (100, 400 - x - 10 * len(t), 112, 400 - x) if vertical else (x, 100, x + 10 * len(t), 112)
        spans.append(L.span(t, *b, vertical=vertical, **kw))
        x += 10 * len(t)
    return L.block([L.line(spans, vertical)])


def written(blocks, **kw):
    return D.body(L.docx_of([L.parse(L.FakePage(0, 600, 800, content=lambda: blocks, **kw))]))


def flags(c):
    """Two spans of one line, any flags."""
    f = [c.int('f0', 0, 255), c.int('f1', 0, 31 if c.second else 0)]
    pairs = char_runs(written([line_of(['abc', 'def'], [dict(flags=v) for v in f], c.vertical)]))
    check_text(c, pairs, 'abcdef')
    for i, (_, r) in enumerate(pairs):
        check_flags(c, r, f[i // 3], i // 3)


def size(c):
    """Two spans of any size."""
    s = [c.real('s0', 0.1, c.top, c.grid), c.real('s1', 0.1, c.top, c.grid) if c.second else 10]
    pairs = char_runs(written([line_of(['abc', 'def'], [dict(size=v) for v in s], c.vertical)]))
    check_text(c, pairs, 'abcdef')
    for i, (_, r) in enumerate(pairs):
        check_size(c, r, s[i // 3], i // 3)
        c.cover('scaled' if not (isinstance(r.scale, float) and r.scale == 1.0) else 'plain')


def characters(c):
    """Any characters in text, font name and link address; characters XML does not allow are replaced one by one."""
    import fitz
    import io
    ch = c.choice('char', CHARS)
    where = c.choice('where', ('text', 'linked', 'font', 'address'))
    bad = ch in BAD
    size = c.real('size', 0.1, 30)
    x = f'a{ch}b' if where in ('text', 'linked') else 'ab'
    spans = [L.span(x, 100, 100, 140, 112, size=size, font=f'Ar{ch}l' if where == 'font' else 'Arial'), L.span('cd', 140, 100, 160, 112)]
    uri = f'http://a/{ch}x' if where == 'address' else URI
    links = (lambda: [{'kind': 2, 'from': fitz.Rect(100, 100, 140, 112), 'uri': uri}]) if where in ('linked', 'address') else lambda: []
    doc = L.docx_of([L.parse(L.FakePage(0, 600, 800, content=lambda: [L.block([L.line(spans)]), L.block([L.tline('tail', 100, 200, 140, 212)])], links=links))])
    doc.save(io.BytesIO())
    runs = [r for r in D.all_runs(D.body(doc)) if r.text]
    got = ''.join(r.text for r in runs).strip()
    want = x + 'cd'
    c.check(got.replace('tail', '').strip() == (want.replace(ch, '\ufffd') if bad else want), f'text {want!r} is written as {got!r}')
    c.check(got.endswith('tail'), 'text after it is lost')
    for r in runs:
        if r.text.startswith('a'):
            check_size(c, r, size, 0)
            if links():
                c.check(r.link is not None and (bad or r.link == uri), f'link to {r.link!r}')
                if where == 'address' and bad:
                    c.check(r.link.startswith('http://a/') and r.link.endswith('x'), f'link to {r.link!r}')
    c.observe(got)
    c.cover('replaced' if bad else 'kept')


BAD = ('\x00', '\x01', '\x0b', '\x1f', '\ud800', '\udfff', '\ufffe')
CHARS = BAD + ('\x7f', '\xe9', '\u4e2d', '\ue000', '\ufffd', '\U0001f600', '\U0010ffff', '&', '<', '"')
NAMES = {'yellow': 0xffff00, 'green': 0x00ff00, 'blue': 0x0000ff, 'red': 0xff0000, 'magenta': 0xff00ff, 'cyan': 0x00ffff}


def styles(c):
    """A span with any list of different styles, as they are found on the page."""
    from docx import Document
    from pdf2docx.common.share import RectType
    from pdf2docx.text.TextSpan import TextSpan
    text = 'ab c' if c.colours else c.choice('text', ('ab c', ' x', '>&<"'))
    order = c.choice('order', c.orders)
    if c.colours:
        col = c.int('text_color', 0, 0xffffff)
        colors = {t: c.int('c_' + t, 0, 0xffffff) for t in order}
    else:
        col = c.choice('text_color', (0, 0xabcdef))
        colors = dict(mark=c.choice('mark', (0xffff00, 0x0c0b0a)) if 'mark' in order else 0, under=0xabcdef, strike=0, link=0xff)
    kinds = dict(mark=RectType.HIGHLIGHT, under=RectType.UNDERLINE, strike=RectType.STRIKE, link=RectType.HYPERLINK)
    fl = 0 if c.colours else c.int('flags', 0, 31)
    sp = TextSpan(L.span(text, 100, 100, 140, 112, color=col, flags=fl, size=c.size,
                         style=[dict(type=kinds[t].value, color=colors[t], **(dict(uri=URI) if t == 'link' else {}))
                                for t in order]))
    doc = Document()
    sp.make_docx(doc.add_paragraph())
    runs = [r for r in D.all_runs(D.body(doc)) if r.text]
    c.check(''.join(r.text for r in runs) == text, f'{text!r} is written as {[r.text for r in runs]}')
    for r in runs:
        check_flags(c, r, fl, 0)
        check_size(c, r, c.size, 0)
        c.check(r.color is not None and not isinstance(r.color, str), 'text without colour')
        c.check(r.color == col, 'text is written in another colour')
        c.check(r.link == (URI if 'link' in order else None), f'hyperlink of {order}: {r.link!r}')
        c.check(r.strike == ('strike' in order), f'strike-through of {order}: {r.strike}')
        c.check(r.underline == ('under' in order), f'underline of {order}: {r.underline}')
        if 'under' in order:
            u = col if r.ucolor in (None, 'auto') else r.ucolor
            c.check(u == colors['under'], 'underline in another colour')
            c.cover('under')
        if 'mark' in order:
            m = NAMES.get({'darkYellow': ''}.get(r.highlight, r.highlight)) if r.highlight is not None else r.shade
            c.check(m is not None, f'highlight of {order} is lost ({r.highlight}, {r.shade})')
            c.check(m == colors['mark'], 'highlight in another colour')
            c.cover('mark')
        else:
            c.check(r.highlight is None and r.shade is None, 'a highlight that is not in the source')
        if 'link' in order:
            c.cover('link')


# (name as found in the PDF, name a user sees in the docx)
FONTS = [('Calibri', 'Calibri'), ('BCDGEE+Calibri', 'Calibri'), ('BCDGEE+Calibri-Bold', 'Calibri'), ('Arial-BoldMT', 'Arial'),
         ('SimSun', '宋体'), ('ABCDEF+SimSun', '宋体'), ('Times New Roman', 'Times New Roman'), ('Ko Pub,Light', 'Ko Pub Light')]


def fonts(c):
    a, b = c.choice('a', tuple(FONTS)), c.choice('b', tuple(FONTS))
    f = c.int('f', 0, 31)
    pairs = char_runs(written([line_of(['abc', 'def'], [dict(font=a[0], flags=f), dict(font=b[0], flags=f)])]))
    check_text(c, pairs, 'abcdef')
    for i, (_, r) in enumerate(pairs):
        want = (a, b)[i // 3][1]
        c.check(r.font == want, f'font {(a, b)[i // 3][0]} is written as {r.font}')
        c.check(r.fonts.get('eastAsia') == want and r.fonts.get('hAnsi') == want, f'font {want}: {r.fonts}')
        check_flags(c, r, f, i // 3)


def page(c):
    """A page with several paragraphs and a table: every character with its own font properties."""
    fl = [c.int(f'f{i}', 0, 31) if i < c.n else 16 for i in range(2)]
    sz = [c.real(f's{i}', 1, 40) for i in range(2)]
    co = [c.choice('c0', (0, 0x123456)), 0xfedcba]
    y = c.real('y', 180, 400)
    kw = [dict(flags=a, size=b, color=d) for a, b, d in zip(fl, sz, co)]
    inside = c.choice('cell', (False, True))
    where = (120, 110, 160, 122) if inside else (120, 165, 160, 177)
    blocks = [L.block([L.tline('abcd', *where, **kw[0])]), L.block([L.tline('wxyz', 120, y, 160, y + 12, **kw[1])])]
    items = written(blocks, drawings=lambda: L.dtable([100, 200, 300], [100, 130, 160]))
    pairs = char_runs(items)
    check_text(c, pairs, 'abcdwxyz')
    c.cover('cell' if inside else 'plain')
    for i, (_, r) in enumerate(pairs):
        check_flags(c, r, fl[i // 4], i // 4)
        check_size(c, r, sz[i // 4], i // 4)
        c.check(r.color == co[i // 4], f'paragraph {i // 4} is written in another colour')


ORDERS = [(), ('mark',), ('under',), ('link',), ('under', 'link'), ('link', 'mark'), ('strike', 'under'), ('mark', 'under', 'strike')]
MORE = ORDERS + [('strike',), ('link', 'under'), ('mark', 'link'), ('under', 'strike'), ('under', 'mark', 'link'),
                 ('link', 'strike', 'mark'), ('strike', 'under', 'mark', 'link'), ('link', 'mark', 'under', 'strike')]
ALL = ['bold', 'italic', 'sup']
HARNESSES = [
    Harness('flags', flags, 'two spans of a line with any flags', quick=dict(second=True, vertical=False), covers=ALL),
    Harness('flags_vertical', flags, 'vertical text with any flags', quick=dict(second=False, vertical=True),
            thorough=dict(second=True, vertical=True), covers=ALL),
    Harness('size', size, 'two spans of any size up to 200 pt', quick=dict(second=True, vertical=False, top=200, grid=None),
            covers=['scaled', 'plain']),
    Harness('size_vertical', size, 'vertical text of any size', quick=dict(second=False, vertical=True, top=1000, grid=None),
            covers=['scaled', 'plain']),
    Harness('characters', characters, 'any kind of character in text, linked text, font names and addresses; any size', covers=['replaced', 'kept']),
    Harness('styles', styles, 'a span with up to three styles, every flag word', quick=dict(orders=ORDERS, size=10, colours=False),
            thorough=dict(orders=MORE, size=10.3, colours=False), covers=ALL + ['mark', 'under', 'link']),
    Harness('colours', styles, 'a span with up to two styles, all colours',
            quick=dict(orders=[('mark',), ('under',), ('link',)], size=10, colours=True),
            thorough=dict(orders=MORE, size=10, colours=True), covers=['mark', 'under', 'link']),
    Harness('fonts', fonts, 'pairs of eight font names', quick={}),
    Harness('page', page, 'two paragraphs, one of them in a table or not; any flags and size', quick=dict(n=1), thorough=dict(n=2),
            covers=['cell', 'plain'] + ALL),
]
