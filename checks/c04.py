"""C04: the source PDF is never deleted or overwritten."""
import contextlib
import os
import shutil
import sys
import tempfile

from symx.harness import Harness
from symx import symname
from symx.symname import SStr
from checks import lib as L

NOTE = 'Every input name of up to four free characters with one of seven endings; file operations are recorded, not executed.'
ASSUMPTIONS = ['names are relative paths in a scratch directory, of letters, dots, slashes; the last component is a file name '
               '(not empty, . or ..)', 'an output path that is the same file through a link is not considered']
ENDS = ('.pdf', '.PDF', '', '.pdf.bak', '.docx.pdf', '.Pdf', '.docx')


def text(s):
    return SStr(s)


def last(s, what):
    return s.rfind(what)


def expected(s):
    """Same directory and stem, the final extension replaced."""
    base = last(s, '/') + 1
    dot = last(s[base:], '.')
    stem = s
    if dot > 0:
        for k in range(dot):
            if not (s[base + k] == '.'):
                stem = s[:base + dot]
                break
    return stem + '.docx'


@contextlib.contextmanager
def scratch():
    """Working directory some levels below a scratch directory."""
    top = tempfile.mkdtemp(prefix='verif-c04-')
    old = os.getcwd()
    try:
        d = os.path.join(top, 'b', 'b', 'b', 'b')
        os.makedirs(d)
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)


class Recorder:
    """File operations of the modules under test, recorded instead of executed."""

    def __init__(self, c, source):
        self.c, self.source = c, source
        self.touched, self.known = [], []

    def same(self, p):
        return symname.normpath(p) == symname.normpath(self.source)

    def touch(self, p, *a, **k):
        self.touched.append(p)
        if a and isinstance(a[0], (str, SStr)):
            self.touched.append(a[0])

    def exists(self, p):
        if self.c.true(self.same(p)):
            return True
        for q, v in self.known:
            if self.c.true(q == p):
                return v
        v = self.c.true(self.c.bool(f'exists{len(self.known)}'))
        self.known.append((p, v))
        return v

    def open(self, p, mode='r', *a, **k):
        if any(m in mode for m in 'wxa+'):
            self.touch(p)
            import io
            return io.StringIO() if 'b' not in mode else io.BytesIO()
        raise FileNotFoundError(p)


@contextlib.contextmanager
def watched(c, source):
    """Symbolic run: os, os.path and open of the modules under test are replaced by recording ones.
    Concrete run: real files in a scratch directory."""
    with scratch() as cwd:
        r = Recorder(c, source)
        if c.symbolic:
            import pathlib
            import re
            fos, path = symname.make_os(dict(exists=r.exists, isfile=r.exists, lexists=r.exists, remove=r.touch, unlink=r.touch,
                                             rename=r.touch, replace=r.touch, truncate=r.touch, rmdir=r.touch))
            sre = type(re)('re')
            sre.__dict__.update({k: symname.concretise_args(v) if callable(v) and not isinstance(v, type) else v
                                 for k, v in vars(re).items() if not k.startswith('__')})
            tr = []
            for n, m in list(sys.modules.items()):
                if m is None or not n.startswith('pdf2docx'):
                    continue
                tr.append((m.__dict__, 'open', r.open))
                for k, v in list(vars(m).items()):
                    if k.startswith('__'):
                        continue
                    if v is os:
                        tr.append((m.__dict__, k, fos))
                    elif v is os.path:
                        tr.append((m.__dict__, k, path))
                    elif v is re:
                        tr.append((m.__dict__, k, sre))
                    elif callable(v) and getattr(os, k, None) is v and hasattr(fos, k):
                        tr.append((m.__dict__, k, getattr(fos, k)))
                    elif callable(v) and getattr(os.path, k, None) is v:
                        tr.append((m.__dict__, k, getattr(path, k)))
            with L.patched(*tr):
                yield r
            return
        d = os.path.dirname(source)
        if d:
            os.makedirs(d, exist_ok=True)
        with open(source, 'wb') as f:
            f.write(b'source')
        out = str(expected(SStr(source)))
        if c.true(c.bool('exists0')) and not os.path.exists(out):
            open(out, 'wb').write(b'old')
        r.out = out
        yield r
        if not os.path.exists(source) or open(source, 'rb').read() != b'source':
            r.touch(source)
        if os.path.normpath(out) != os.path.normpath(source) and c.true(c.bool('exists0')) and not os.path.exists(out):
            r.touch(out)


def source_name(c, ends):
    n = c.pick('len', 0, c.n)
    s = symname.name(c, 'c', n, c.letters)
    end = c.choice('end', ends)
    s = s + end
    t = SStr(s) if isinstance(s, str) else s
    c.assume(len(t) > 0)
    c.assume(c.no(t[0] == '/'))
    c.assume(c.no(t[len(t) - 1] == '/'))
    base = t[last(t, '/') + 1:]
    c.assume(c.no(base == '.'))
    c.assume(c.no(base == '..'))
    c.assume(c.no(c.either(*[t[k:k + 2] == '//' for k in range(len(t) - 1)])) if len(t) > 1 else True)
    return s, t


def untouched(c, r, source):
    for p in r.touched:
        c.check(c.no(r.same(SStr(p) if isinstance(p, str) else p)), 'the source file is removed or written')


class Plots:
    """A new document that layouts are plotted to."""

    def __init__(self, touch):
        self.touch = touch

    def save(self, p, *a, **k):
        self.touch(p)
    ez_save = saveIncr = save

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: Plots(self.touch)


def run(c, out=None, s=None, pages=1, fail=False, api=0):
    from pdf2docx import Converter
    from pdf2docx.main import PDF2DOCX
    import fitz

    def load(p):
        if fail:
            raise L.PageFailure()
    fakes = [L.FakePage(i, on_load=load, content=lambda: [L.block(L.tline('a', 100, 100, 160, 112))]) for i in range(pages)]
    err = None
    with watched(c, s) as r:
        with L.documents(lambda name: Plots(r.touch) if name is None else L.FakeDoc(fakes)) as saved:
            try:
                if api == 0:
                    Converter(s).convert(*([] if out is None else [out]))
                elif api == 1:
                    PDF2DOCX.convert(s, *([] if out is None else [out]))
                elif api == 2:
                    Converter(s).parse().make_docx(*([] if out is None else [out]))
                else:
                    Converter(s).debug_page(0, *([] if out is None else [out]))
            except Exception as e:
                err = e
    return r, saved, err


def default(c):
    """No output name: same directory and stem with .docx, never the source itself."""
    s, t = source_name(c, ENDS)
    api = c.pick('api', 0, 3)
    r, saved, err = run(c, s=s, api=api)
    untouched(c, r, t)
    exp = expected(t)
    same = c.true(r.same(exp))
    for p, d in saved:
        p = SStr(p) if isinstance(p, str) else p
        c.check(c.no(r.same(p)), 'the docx is written over the source file')
        c.check(p == exp, 'the docx is not written to the name of the source with its extension replaced')
    if not same:
        c.check(len(saved) == 1, f'the docx is not written: {err}')
        c.cover('written')
        c.cover('debug' if api == 3 else 'plain')
    else:
        c.cover('same')


def explicit(c):
    """An output name is given: only it is written, and not if it is the source."""
    s, t = source_name(c, ('', '.pdf'))
    m = c.pick('olen', 1, c.n)
    o = symname.name(c, 'o', m, c.letters) + c.choice('oend', ('', '.docx'))
    u = SStr(o) if isinstance(o, str) else o
    c.assume(c.no(u[0] == '/'))
    c.assume(c.no(u[len(u) - 1] == '/'))
    base = u[last(u, '/') + 1:]
    c.assume(c.no(base == '.'))
    c.assume(c.no(base == '..'))
    r, saved, err = run(c, o, s=s)
    untouched(c, r, t)
    for p, d in saved:
        p = SStr(p) if isinstance(p, str) else p
        c.check(c.no(r.same(p)), 'the docx is written over the source file')
        c.check(p == u, 'the docx is written to another path than asked for')
    if not c.true(r.same(u)):
        c.check(len(saved) == 1, f'the docx is not written: {err}')
        c.cover('written')
    else:
        c.cover('same')


def nothing(c):
    """No page is parsed: nothing is removed or written."""
    s, t = source_name(c, ENDS)
    kind = c.choice('kind', ('no pages', 'failing'))
    r, saved, err = run(c, s=s, pages=0 if kind == 'no pages' else 1, fail=kind == 'failing', api=c.pick('api', 0, 2))
    c.check(not r.touched, 'a file is removed or written though there is no page to write')
    c.check(not saved, 'a docx is written without any page')
    c.cover(kind)


HARNESSES = [
    Harness('default', default, 'input names of up to n characters and an ending; no output name', quick=dict(n=3, letters='a./pd'),
            thorough=dict(n=5, letters='a./pdf'), covers=['written', 'same', 'debug', 'plain']),
    Harness('explicit', explicit, 'input and output names of up to n characters and an ending', quick=dict(n=2, letters='a./'),
            thorough=dict(n=3, letters='a./'), covers=['written', 'same']),
    Harness('nothing', nothing, 'input names of up to n characters and an ending; no page can be written', quick=dict(n=2, letters='a./p'),
            thorough=dict(n=4, letters='a./pdf'), covers=['no pages', 'failing']),
]
