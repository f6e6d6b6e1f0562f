"""C05: storing and restoring parsed pages loses nothing."""
import json

from symx import core
from symx.harness import Harness
from checks import docxread as D
from checks import lib as L
from checks import samples as S

NOTE = ('Whole pages are parsed, stored, taken through JSON, restored into another page object and both are written; every value '
        'read back from the two docx files must agree.')
ASSUMPTIONS = ['coordinates on a 0.1 pt grid', 'JSON keeps numbers (text of symbolic numbers is not formed)']


def through_json(x):
    """What json.dumps and json.loads make of a value; symbolic numbers stay."""
    if isinstance(x, (core.SymNum, core.SymBool)):
        return x
    if isinstance(x, dict):
        return {(k if isinstance(k, str) else json.loads(json.dumps({k: 0})).popitem()[0]): through_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [through_json(v) for v in x]
    return json.loads(json.dumps(x))


def same(c, a, b, where, skip=('el', 'rid')):
    """Deep comparison of what was read from two documents; numbers up to 0.06."""
    if isinstance(a, D.Obj) or isinstance(b, D.Obj):
        c.check(isinstance(a, D.Obj) and isinstance(b, D.Obj), f'{where}: only one of both documents has it')
        for k in a.__dict__:
            if k not in skip:
                same(c, getattr(a, k), getattr(b, k, None), f'{where} {k}', skip)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        c.check(len(a) == len(b), f'{where}: {len(a)} before, {len(b)} after')
        for i, (x, y) in enumerate(zip(a, b)):
            same(c, x, y, where, skip)
    elif isinstance(a, dict) and isinstance(b, dict):
        c.check(list(a) == list(b), f'{where}: {list(a)} before, {list(b)} after')
        for k in a:
            same(c, a[k], b[k], f'{where} {k}', skip)
    elif number(a) and number(b):
        c.check(c.near(a, b, 0.06), f'{where} changes')
    else:
        c.check(a == b, f'{where} changes')


def number(x):
    return isinstance(x, (int, float, core.SymNum)) and not isinstance(x, bool)


def blobs(doc, items):
    """Bytes of the pictures."""
    out = []
    for r in D.all_runs(items):
        for p in r.pics:
            out.append(doc.part.related_parts[p.rid].blob)
    return out


def read(page):
    doc = L.docx_of([page])
    items = D.body(doc)
    return doc, items


def roundtrip(c, page, fake, tag='', rotated=None):
    """Store, restore and compare."""
    from pdf2docx.page.Page import Page
    doc0, a = read(page)
    tables0 = page.extract_tables()
    raw = through_json(page.store())
    gens = 2 if c.twice else 1
    for g in range(gens):
        if rotated is not None:
            L.parse(rotated)
        q = Page(fake)
        q.settings = page.settings
        q.restore(raw)
        doc1, b = read(q)
        same(c, a, b, tag)
        c.check(blobs(doc0, a) == blobs(doc1, b), f'{tag}: pictures change')
        same(c, tables0, q.extract_tables(), f'{tag}: extracted tables')
        c.check(q.id == page.id, 'page id changes')
        raw = through_json(q.store())
    c.observe([D.text(a), D.text(b)])
    S.cover(c, a)


def page_of(build, tag):
    def run(c):
        f, settings = build(c)
        with L.own_pictures():
            roundtrip(c, L.parse(f, **settings), f, tag)
    return run


def rotation(c):
    """Pages of any rotation, restored after a page of another rotation was read."""
    r0, r1 = c.choice('own', (0, 90)), c.choice('earlier', (0, 90, 180, 270))
    w, h = 600, 800
    x = c.real('x', 100, 400)
    f = L.rotated_page(r0, w, h, content=lambda: [L.block([L.tline('abc', x, 300, x + 60, 312, dir=L.READS_RIGHT[r0])])])
    L.FakeDoc([f])
    g = L.rotated_page(r1, w, h, content=lambda: [L.block([L.tline('xyz', 100, 200, 160, 212, dir=L.READS_RIGHT[r1])])])
    L.FakeDoc([g])
    roundtrip(c, L.parse(f), f, f'page of {r0} degrees restored after one of {r1}', g)


def content(items):
    """Without the empty paragraphs at the end that separate sections."""
    items = list(items)
    while items and not any(True for _ in D.all_runs(items[-1:])):
        items.pop()
    return items


def converter(c):
    """Pages of any selection stored in a file by one converter, restored from it by another one."""
    import os
    import tempfile
    from pdf2docx import Converter
    n = c.n
    char = c.choice('char', ('a', '\u00e9', '\u4e2d', '"', '\\', '\U0001f600'))
    sel = [c.true(c.bool(f'sel{i}')) for i in range(n)]
    own = [c.true(c.bool(f'own{i}')) for i in range(n)]
    docs = []
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'pages.json')

        def fakes():
            def page(i):
                return L.FakePage(i, 500 + 10 * i, 800, drawings=lambda: L.dtable((90, 250, 300), (390, 420)),
                                  content=lambda: [L.block([L.tline(f'x{i}{char}', 100, 100, 160, 112)]),
                                                   L.block([L.tline(f'in{i}{char}', 100, 400, 160, 412)])])
            return [page(i) for i in range(n)]
        with L.single_doc(fakes()) as saved:
            cv = Converter('/nonexistent-verif/in.pdf')
            cv.parse([i for i in range(n) if sel[i]])
            cv.serialize(path)
            if any(sel):
                cv.make_docx(L.OUT)
                docs.append(saved[-1][1])
        with L.single_doc(fakes()) as saved:
            cv = Converter('/nonexistent-verif/in.pdf')
            cv.parse([i for i in range(n) if own[i]])
            cv.deserialize(path)
            if any(sel) or any(own):
                cv.make_docx(L.OUT)
                docs.append(saved[-1][1])
    if not any(sel):
        c.cover('nothing stored')
        return
    c.check(len(docs) == 2, 'nothing is written')
    before, after = D.pages(docs[0]), D.pages(docs[1])
    want = [i for i in range(n) if sel[i] or own[i]]
    texts = [''.join(D.text(items).split()) for _, items in after]
    c.check(texts == [f'x{i}{char}in{i}{char}' for i in want], f'pages {want} written with text {texts}')
    for i in range(n):
        if sel[i]:
            (s0, a), (s1, b) = before.pop(0), after[want.index(i)]
            same(c, s0, s1, f'page {i}')
            same(c, content(a), content(b), f'page {i}')
    c.observe(texts)
    c.cover('some')


HARNESSES = [
    *[Harness(n, page_of(build, n), bounds, quick=dict(twice=True, **p), covers=covers) for n, (build, bounds, p, covers) in S.BUILDERS.items()],
    Harness('rotation', rotation, 'pages of any rotation restored after pages of any rotation', quick=dict(twice=False)),
    Harness('converter', converter, 'any pages of a document stored in a file and restored by a converter that parsed any pages', quick=dict(n=2),
            thorough=dict(n=3), covers=['some', 'nothing stored']),
]
