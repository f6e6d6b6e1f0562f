"""Read what was written to a python-docx document (XML level), for concrete and symbolic runs alike."""
from symx import core

NS = {'w': 'http://schemas.openxmlformats.org/wordprocessingml/2006/main',
      'wp': 'http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing',
      'a': 'http://schemas.openxmlformats.org/drawingml/2006/main',
      'r': 'http://schemas.openxmlformats.org/officeDocument/2006/relationships',
      'pic': 'http://schemas.openxmlformats.org/drawingml/2006/picture'}


def q(name):
    p, n = name.split(':')
    return f'{{{NS[p]}}}{n}'


def num(s):
    """Number written in an attribute (None if absent)."""
    if s is None:
        return None
    if core.ENG is not None:
        o = core.ENG.untoken(s)
        if o is not None:
            return o
    try:
        return int(s)
    except ValueError:
        return float(s)


def colour(s):
    """24-bit value of a hexadecimal colour attribute; 'auto' stays."""
    if s is None or s == 'auto':
        return s
    s = s.lstrip('#')
    if core.TOK0 not in s:
        assert len(s) == 6, f'colour of {len(s)} digits: {s}'
        return int(s, 16)
    v, n = 0, 0
    while s:
        if s.startswith(core.TOK0):
            e = s.index(core.TOK1) + len(core.TOK1)
            o = core.ENG.untoken(s[:e])
            assert isinstance(o, core.SymFmt), 'colour written as a decimal number'
            v, s = v * 16 + o.num, s[e:]
        else:
            v, s = v * 16 + int(s[0], 16), s[1:]
        n += 1
    assert n == 6, f'colour of {n} digits'
    return v


def attr(el, path, name='w:val'):
    """Attribute of the first element at path below el, or None."""
    e = el.find(path, NS) if path else el
    return None if e is None else e.get(q(name))


def flag(el, path):
    e = el.find(path, NS)
    return e is not None and e.get(q('w:val')) not in ('0', 'false', 'off')


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def run(r, link=None):
    rp = r.find('w:rPr', NS)
    d = Obj(text='', link=link, pics=[], bold=False, italic=False, sup=False, size=None, color=None, font=None,
            strike=False, underline=False, ucolor=None, scale=None, shade=None, highlight=None, spacing=None)
    if rp is not None:
        d.bold, d.italic, d.strike = flag(rp, 'w:b'), flag(rp, 'w:i'), flag(rp, 'w:strike')
        d.sup = attr(rp, 'w:vertAlign') == 'superscript'
        s = num(attr(rp, 'w:sz'))
        d.size = None if s is None else s / 2
        d.color = colour(attr(rp, 'w:color'))
        f = rp.find('w:rFonts', NS)
        if f is not None:
            d.font = f.get(q('w:ascii'))
            d.fonts = {k.split('}')[1]: v for k, v in f.attrib.items()}
        u = rp.find('w:u', NS)
        d.underline = u is not None and u.get(q('w:val')) != 'none'
        d.ucolor = None if u is None else colour(u.get(q('w:color')))
        s = num(attr(rp, 'w:w'))
        d.scale = 1.0 if s is None else s / 100
        d.shade = colour(attr(rp, 'w:shd', 'w:fill'))
        d.highlight = attr(rp, 'w:highlight')
        d.spacing = num(attr(rp, 'w:spacing'))
    else:
        d.scale = 1.0
    for e in r:
        t = e.tag.split('}')[1]
        if t == 't':
            d.text += e.text or ''
        elif t == 'tab':
            d.text += '\t'
        elif t in ('br', 'cr'):
            d.text += '\n' if e.get(q('w:type')) in (None, 'textWrapping') else '\f'
        elif t == 'drawing':
            d.pics.append(picture(e))
    return d


def picture(e):
    inline = e.find('wp:inline', NS)
    a = inline if inline is not None else e.find('wp:anchor', NS)
    ext = a.find('wp:extent', NS)
    d = Obj(inline=inline is not None, cx=num(ext.get('cx')) / 12700, cy=num(ext.get('cy')) / 12700,
            rid=next(x for x in a.iter(q('a:blip'))).get(q('r:embed')), x=None, y=None)
    sp = [x for x in a.iter(q('a:ext'))]
    d.shape = [(num(x.get('cx')) / 12700, num(x.get('cy')) / 12700) for x in sp if x.get('cx') is not None]
    if not d.inline:
        d.x = num(a.find('wp:positionH/wp:posOffset', NS).text) / 12700
        d.y = num(a.find('wp:positionV/wp:posOffset', NS).text) / 12700
        d.relh = a.find('wp:positionH', NS).get('relativeFrom')
        d.relv = a.find('wp:positionV', NS).get('relativeFrom')
    return d


def tw(s):
    n = num(s)
    return None if n is None else n / 20


def paragraph(p, part=None):
    d = Obj(kind='p', runs=[], align=None, before=None, after=None, line=None, rule=None, left=None, right=None,
            first=None, tabs=[], sect=None, el=p)
    pp = p.find('w:pPr', NS)
    if pp is not None:
        d.align = attr(pp, 'w:jc')
        s = pp.find('w:spacing', NS)
        if s is not None:
            d.before, d.after = tw(s.get(q('w:before'))), tw(s.get(q('w:after')))
            d.rule = s.get(q('w:lineRule'))
            v = num(s.get(q('w:line')))
            if v is not None:
                d.line = v / 20 if d.rule in ('exact', 'atLeast') else v / 240
        i = pp.find('w:ind', NS)
        if i is not None:
            d.left = tw(i.get(q('w:left')) or i.get(q('w:start')))
            d.right = tw(i.get(q('w:right')) or i.get(q('w:end')))
            d.first = tw(i.get(q('w:firstLine')))
            if i.get(q('w:hanging')) is not None:
                d.first = -tw(i.get(q('w:hanging')))
        d.tabs = [tw(t.get(q('w:pos'))) for t in pp.findall('w:tabs/w:tab', NS)]
        s = pp.find('w:sectPr', NS)
        d.sect = None if s is None else section(s)
    d.runs = _runs(p, None, part)
    d.text = ''.join(r.text for r in d.runs)
    return d


def _runs(el, link, part):
    out = []
    for e in el:
        t = e.tag.split('}')[1]
        if t == 'r':
            r = run(e, link)
            inner = [x for x in e if x.tag == q('w:hyperlink')]
            if not inner or r.text or r.pics:
                out.append(r)
            for h in inner:
                got = _runs(h, _target(h, part), part)
                for g in got:       # the outer run carries the format
                    rp = run(e)
                    for k in ('bold', 'italic', 'sup', 'size', 'color', 'font', 'scale', 'shade', 'highlight',
                              'underline', 'ucolor', 'strike'):
                        v = getattr(rp, k)
                        if v is not None and v is not False and not (k == 'scale' and isinstance(v, float) and v == 1.0):
                            setattr(g, k, v)
                out += got
        elif t == 'hyperlink':
            out += _runs(e, _target(e, part), part)
    return out


def _target(h, part):
    rid = h.get(q('r:id'))
    return part.rels[rid].target_ref if part is not None and rid in part.rels else rid


def section(s):
    sz, mar = s.find('w:pgSz', NS), s.find('w:pgMar', NS)
    ty = s.find('w:type', NS)
    cols = s.find('w:cols', NS)
    return Obj(width=tw(sz.get(q('w:w'))), height=tw(sz.get(q('w:h'))), left=tw(mar.get(q('w:left'))),
               right=tw(mar.get(q('w:right'))), top=tw(mar.get(q('w:top'))), bottom=tw(mar.get(q('w:bottom'))),
               orient=sz.get(q('w:orient')),
               type=None if ty is None else ty.get(q('w:val')), ncols=None if cols is None else cols.get(q('w:num')))


def table(t, part=None):
    d = Obj(kind='t', rows=[], indent=num(attr(t, 'w:tblPr/w:tblInd', 'w:w')), el=t,
            grid=[tw(g.get(q('w:w'))) for g in t.findall('w:tblGrid/w:gridCol', NS)])
    if d.indent is not None:
        d.indent = d.indent / 20
    for r in t.findall('w:tr', NS):
        h = r.find('w:trPr/w:trHeight', NS)
        row = Obj(height=None if h is None else tw(h.get(q('w:val'))),
                  rule=None if h is None else h.get(q('w:hRule')), cells=[])
        col = 0
        for c in r.findall('w:tc', NS):
            span = num(attr(c, 'w:tcPr/w:gridSpan')) or 1
            vm = c.find('w:tcPr/w:vMerge', NS)
            vmerge = None if vm is None else (vm.get(q('w:val')) or 'continue')
            borders = {}
            tb = c.find('w:tcPr/w:tcBorders', NS)
            if tb is not None:
                for b in tb:
                    borders[b.tag.split('}')[1]] = Obj(sz=num(b.get(q('w:sz'))), val=b.get(q('w:val')),
                                                       color=colour(b.get(q('w:color'))))
            mar = c.find('w:tcPr/w:tcMar', NS)
            margins = {} if mar is None else {m.tag.split('}')[1]: tw(m.get(q('w:w'))) for m in mar}
            w = c.find('w:tcPr/w:tcW', NS)
            row.cells.append(Obj(col=col, span=span, vmerge=vmerge, borders=borders, margins=margins,
                                 width=None if w is None else tw(w.get(q('w:w'))),
                                 shade=colour(attr(c, 'w:tcPr/w:shd', 'w:fill')),
                                 dir=attr(c, 'w:tcPr/w:textDirection'), content=container(c, part)))
            col += span
        d.rows.append(row)
    return d


def container(el, part=None):
    """Paragraphs and tables directly below an element."""
    out = []
    for e in el:
        t = e.tag.split('}')[1]
        if t == 'p':
            out.append(paragraph(e, part))
        elif t == 'tbl':
            out.append(table(e, part))
        elif t == 'sectPr':
            out.append(Obj(kind='s', sect=section(e)))
    return out


def body(doc):
    return container(doc.element.body, doc.part)


def sections(doc):
    """Section of each page in order (python-docx writes them into the last paragraph of the section)."""
    out = []
    for b in body(doc):
        if b.kind == 's':
            out.append(b.sect)
        elif b.kind == 'p' and b.sect is not None:
            out.append(b.sect)
    return out


def pages(doc):
    """[(section, items of that section)]"""
    out, cur = [], []
    for b in body(doc):
        if b.kind == 's':
            out.append((b.sect, cur))
        else:
            cur.append(b)
            if b.kind == 'p' and b.sect is not None:
                out.append((b.sect, cur))
                cur = []
    return out


def all_paragraphs(items):
    for b in items:
        if b.kind == 'p':
            yield b
        elif b.kind == 't':
            for r in b.rows:
                for c in r.cells:
                    yield from all_paragraphs(c.content)


def text(items):
    return ''.join(p.text for p in all_paragraphs(items))


def all_runs(items):
    for p in all_paragraphs(items):
        yield from p.runs
