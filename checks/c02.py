"""C02: multi-processing converts the same pages as a sequential conversion."""
import contextlib
import inspect
import os
import shutil
import sys
import tempfile

from symx.harness import Harness
from checks import docxread as D
from checks import lib as L
from checks.c01 import expected
from checks.c22 import png

NOTE = ('The process pool is replaced by workers run one after another in any order, each with the class attributes of a fresh '
        'process and its own document; the files between the processes are real, in a scratch directory.')
ASSUMPTIONS = ['workers share nothing but the files they write (true for processes)', 'lists of pages name each page once']
KINDS = ('text', 'table', 'image', 'empty')


class Workers:
    """Stand-in for multiprocessing.Pool."""
    parsed = None       # [(worker, page)]

    def __init__(self, c):
        self.c, self.n, self.log = c, 0, []

    def __call__(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _all(self, f, jobs, star=False):
        jobs = list(jobs)
        out = [None] * len(jobs)
        todo = list(range(len(jobs)))
        k = 0
        while todo:
            i = todo.pop(self.c.pick(f'next{self.n}_{k}', 0, len(todo) - 1) if self.c.orders and len(todo) > 1 else 0)
            k += 1
            with fresh_process():
                out[i] = f(*jobs[i]) if star else f(jobs[i])
        self.n += 1
        return out

    def map(self, f, jobs, *a, **k):
        return self._all(f, jobs)

    def starmap(self, f, jobs, *a, **k):
        return self._all(f, jobs, True)

    def imap(self, f, jobs, *a, **k):
        return iter(self._all(f, jobs))

    imap_unordered = imap

    def map_async(self, f, jobs, *a, **k):
        return Result(self._all(f, jobs))

    def starmap_async(self, f, jobs, *a, **k):
        return Result(self._all(f, jobs, True))

    def apply(self, f, a=(), k={}):
        with fresh_process():
            return f(*a, **k)

    def apply_async(self, f, a=(), k={}, *r, **kw):
        return Result(self.apply(f, a, k))

    def close(self):
        pass

    join = terminate = close


class Result:
    def __init__(self, v):
        self.v = v

    def get(self, *a):
        return self.v

    def wait(self, *a):
        pass


@contextlib.contextmanager
def fresh_process():
    """Class attributes and module globals a worker changes are not seen outside of it."""
    old = []
    for n, m in list(sys.modules.items()):
        if m is None or not (n == 'pdf2docx' or n.startswith('pdf2docx.')):
            continue
        for k, v in list(vars(m).items()):
            if inspect.isclass(v) and v.__module__ == n:
                old.append((v, {a: b for a, b in vars(v).items() if not callable(b) and not a.startswith('__') and
                                not isinstance(b, (property, staticmethod, classmethod)) and not hasattr(b, '__get__')}))
    try:
        yield
    finally:
        for cls, attrs in old:
            for a, b in attrs.items():
                if vars(cls).get(a) is not b:
                    setattr(cls, a, b)


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix='verif-c02-')
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def make(c, n, kinds, fails, log):
    opened = [0]

    def document(name):
        w = opened[0]
        opened[0] += 1

        def load(p):
            log.append((w, p.number))
            if c.true(fails[p.number]):
                raise L.PageFailure()

        def page(i):
            kind = kinds[i]
            bs = [] if kind == 'empty' else [L.block(L.tline(f'p{i}.', 100, 100, 160, 112))]
            if kind == 'image':
                bs.append(L.image((100, 200, 200, 260), png(i + 1)))
            draw = (lambda: L.dtable((90, 200, 300), (90, 130))) if kind == 'table' else (lambda: [])
            return L.FakePage(i, 500 + 10 * i, 800, content=lambda: [dict(b) for b in bs], drawings=draw, on_load=load)
        return L.FakeDoc([page(i) for i in range(n)])
    return document


def pages_of(doc):
    out = []
    for s, items in D.pages(doc):
        pics = [r.pics[0].cx for p in D.all_paragraphs(items) for r in p.runs if getattr(r, 'pics', None)]
        out.append((s.width, s.height, s.left, s.top, s.right, s.bottom, ''.join(D.text(items).split()),
                    [len(b.rows) for b in items if b.kind == 't'], pics))
    return out


def multi(c):
    import multiprocessing
    from pdf2docx import Converter
    import pdf2docx.converter as m
    n = c.pick('n', 1, c.n)
    if c.kinds:
        kinds = [KINDS[c.pick(f'kind{i}', 0, 3)] for i in range(n)]
    else:
        kinds = ['text'] * n
    fails = [c.bool(f'fail{i}') if c.fails else False for i in range(n)]
    kw, sel, start, end = {}, None, 0, None
    if c.select == 'range':
        start = c.int('start', -n - 1, n)
        kw['start'] = start
        if not c.pick('open_end', 0, 1):
            end = kw['end'] = c.int('end', -n - 1, n + 1)
    elif c.select == 'list':
        sel = [c.int(f'p{i}', -1, n) for i in range(c.pick('k', 1, c.k))]
        for i in range(len(sel)):
            for j in range(i):
                c.assume(c.no(sel[i] == sel[j]))
        kw['pages'] = list(sel)
    exp = expected(c, n, start, end, sel)
    cores = c.pick('cores', 1, c.cores)
    setting = {'multi_processing': True}
    if c.pick('given', 0, 1):
        setting['cpu_count'] = c.pick('cpu_count', 1, c.cores)
    results, logs, errs = [], [], []
    pool = Workers(c)
    for mode in (0, 1):
        log, err = [], None
        with scratch() as d, L.documents(make(c, n, kinds, fails, log)) as saved:
            if c.litter:    # files of somebody else
                for i in range(c.cores):
                    open(f'pages-{i}.json', 'w').write('{"keep": 1}')
            tr = []
            for k, v in list(vars(m).items()):
                if v is multiprocessing.Pool or getattr(v, '__func__', None) is multiprocessing.Pool.__func__:
                    tr.append((m.__dict__, k, pool))
                elif v is multiprocessing.cpu_count or getattr(v, '__func__', None) is multiprocessing.cpu_count.__func__:
                    tr.append((m.__dict__, k, lambda: cores))
            with L.own_pictures(), L.patched((multiprocessing, 'Pool', pool), (multiprocessing, 'cpu_count', lambda: cores), *tr):
                try:
                    Converter('/nonexistent-verif/a.pdf').convert(L.OUT, kwargs=setting if mode else {}, **kw)
                except Exception as e:
                    err = e
            left = sorted(os.listdir(d))
            if c.litter:
                c.check(left == [f'pages-{i}.json' for i in range(c.cores)] and
                        all(open(f).read() == '{"keep": 1}' for f in left), 'files of the working directory are changed')
            else:
                c.check(not left, f'files are left behind: {left}')
        results.append(pages_of(saved[0][1]) if saved else None)
        logs.append(log)
        errs.append(err)
    c.check((results[0] is None) == (results[1] is None), f'only one of both conversions writes the docx: {errs}')
    parsed = sorted(set(logs[1]))
    c.check(sorted(p for w, p in parsed) == exp, f'pages {[p for w, p in parsed]} are parsed by the workers, requested {exp}')
    if results[0] is not None:
        a, b = [r[6] for r in results[0]], [r[6] for r in results[1]]
        c.check(a == b, f'multi-processing writes {b}, sequential conversion {a}')
        c.check(results[0] == results[1], 'pages differ between multi-processing and sequential conversion')
        c.observe(b)
    c.cover('some' if results[0] else 'none')


HARNESSES = [
    Harness('range', multi, 'documents of 1..n pages, any start/end, 1..cores processors; cpu_count given or not',
            quick=dict(n=3, cores=3, select='range', kinds=False, fails=False, orders=False, litter=False),
            thorough=dict(n=5, cores=6, select='range', kinds=False, fails=False, orders=False, litter=False), covers=['some', 'none']),
    Harness('list', multi, 'documents of 1..n pages, lists of 1..k pages',
            quick=dict(n=3, cores=2, k=2, select='list', kinds=False, fails=False, orders=False, litter=False),
            thorough=dict(n=5, cores=4, k=3, select='list', kinds=False, fails=False, orders=False, litter=False), covers=['some', 'none']),
    Harness('segments', multi, 'all of 1..n pages, 1..cores processors',
            quick=dict(n=8, cores=4, select='all', kinds=False, fails=False, orders=False, litter=False),
            thorough=dict(n=12, cores=8, select='all', kinds=False, fails=False, orders=False, litter=False), covers=['some']),
    Harness('orders', multi, 'all pages; workers in any order, any pages failing',
            quick=dict(n=3, cores=3, select='all', kinds=False, fails=True, orders=True, litter=False),
            thorough=dict(n=4, cores=4, select='all', kinds=False, fails=True, orders=True, litter=False), covers=['some', 'none']),
    Harness('kinds', multi, 'all pages; text, table, image or empty ones',
            quick=dict(n=2, cores=2, select='all', kinds=True, fails=False, orders=False, litter=False),
            thorough=dict(n=3, cores=2, select='all', kinds=True, fails=False, orders=False, litter=False), covers=['some']),
    Harness('litter', multi, 'all pages; the working directory holds files of the same names',
            quick=dict(n=2, cores=2, select='all', kinds=False, fails=False, orders=False, litter=True), covers=['some']),
]
