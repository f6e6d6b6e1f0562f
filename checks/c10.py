"""C10: grouping finds exactly the connected components."""
import itertools

from symx.harness import Harness


def boxes(c, n, hi=100):
    from pdf2docx.common.Element import Element
    import fitz
    out = []
    for i in range(n):
        x0, y0 = c.real(f'x{i}', 0, hi), c.real(f'y{i}', 0, hi)
        w, h = c.real(f'w{i}', 0, hi), c.real(f'h{i}', 0, hi)
        e = Element()
        e.bbox = fitz.Rect(x0, y0, x0 + w, y0 + h)
        e.tag = i
        out.append(e)
    return out


def components(n, pairs):
    comp = list(range(n))
    for i, j in pairs:
        a, b = comp[i], comp[j]
        comp = [a if k == b else k for k in comp]
    return comp


def partition(c, groups, n):
    got = [sorted(e.tag for e in g) for g in groups]
    c.check(sorted(x for g in got for x in g) == list(range(n)), 'grouping must keep every element exactly once')
    where = {x: k for k, g in enumerate(got) for x in g}
    return [where[i] for i in range(n)]


def sweep(c):
    """group_by_connectivity against overlap of the boxes grown by the tolerance.  Boxes that only touch may
    or may not count as connected; boxes that overlap must, boxes apart must not."""
    from pdf2docx.common.Collection import BaseCollection
    n = c.n
    els = boxes(c, n)
    dx, dy = c.real('dx', 0, 5), c.real('dy', 0, 5)
    got = partition(c, BaseCollection(els).group_by_connectivity(dx=dx, dy=dy), n)
    touching = []
    for i, j in itertools.combinations(range(n), 2):
        a, b = els[i].bbox, els[j].bbox
        g = [b.x1 - a.x0 + 2 * dx, a.x1 - b.x0 + 2 * dx, b.y1 - a.y0 + 2 * dy, a.y1 - b.y0 + 2 * dy]
        over = c.both(*[v > 0 for v in g])
        if got[i] != got[j]:
            c.check(c.no(over), f'overlapping boxes {i},{j} are in different groups')
        else:
            touch = c.both(*[v >= 0 for v in g])
            touching.append(((i, j), touch))
    # members of one group must be connected by touching boxes of the group
    comp = components(n, [p for p, t in touching if c.true(t)])
    for i, j in itertools.combinations(range(n), 2):
        if got[i] == got[j]:
            c.check(comp[i] == comp[j], f'unrelated boxes {i},{j} are in one group')
    c.cover(len(set(got)))


def relation(c):
    """group(fun) against the components of an arbitrary relation (not necessarily symmetric in how it is
    evaluated: fun is asked with the earlier element first)."""
    from pdf2docx.common.Collection import BaseCollection
    from pdf2docx.common.Element import Element
    n = c.n
    els = []
    for i in range(n):
        e = Element()
        e.tag = i
        els.append(e)
    rel = {(i, j): c.int(f'r{i}{j}', 0, 1) for i, j in itertools.combinations(range(n), 2)}

    def fun(a, b):
        i, j = sorted((a.tag, b.tag))
        return rel[i, j] == 1
    got = partition(c, BaseCollection(els).group(fun), n)
    comp = components(n, [k for k, v in rel.items() if c.true(v == 1)])
    for i, j in itertools.combinations(range(n), 2):
        c.check((got[i] == got[j]) == (comp[i] == comp[j]), 'groups are not the connected components of the relation')
    c.cover(len(set(got)))


HARNESSES = [
    Harness('sweep', sweep, 'n boxes anywhere in 100x100 with any size 0..100, any tolerances 0..5',
            quick=dict(n=3), thorough=dict(n=4), covers=[1, 2, 3]),
    Harness('relation', relation, 'n elements, every symmetric relation between them',
            quick=dict(n=4), thorough=dict(n=5), covers=[1, 2, 3, 4]),
]
