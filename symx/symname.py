"""Symbolic text over a small alphabet: file names whose characters are solver variables.

The number of characters is concrete; a character is a str or a symbolic index into ALPHABET.  Comparing gives a
formula, searching forks.  Whatever needs a real str (C functions) gets one by forking over the characters."""
import os
import types

from . import core
from .core import SymNum, s_and, s_or, ite

ALPHABET = 'a./pdfPDFoc -_bx'
SEP = '/'


def eq_char(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        return a == ALPHABET.index(b) if b in ALPHABET else False
    return a == b


def _swap(c, up):
    if isinstance(c, str):
        return c.upper() if up else c.lower()
    out = c
    for i, ch in enumerate(ALPHABET):
        o = ch.upper() if up else ch.lower()
        if o != ch and o in ALPHABET:
            out = ite(c == i, ALPHABET.index(o), out)
        elif o != ch and core.ENG.implied(c == i) is not False and bool(c == i):
            return o
    return out


class SStr:
    def __init__(self, cs):
        self.cs = list(cs)

    # ---- concrete views
    def concrete(self):
        self.cs = [c if isinstance(c, str) else ALPHABET[core.ENG.concretise(c) if isinstance(c, SymNum) else c] for c in self.cs]
        return ''.join(self.cs)

    __str__ = __fspath__ = concrete

    def __repr__(self):
        return repr(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __hash__(self):
        return hash(self.concrete())

    def encode(self, *a):
        return self.concrete().encode(*a)

    # ---- structure
    def __len__(self):
        return len(self.cs)

    def __iter__(self):
        return (SStr([c]) for c in self.cs)

    def __getitem__(self, i):
        r = self.cs[i]
        return SStr(r if isinstance(i, slice) else [r])

    def __add__(self, o):
        return SStr(self.cs + list(o.cs if isinstance(o, SStr) else o))

    def __radd__(self, o):
        return SStr(list(o) + self.cs)

    def __mul__(self, n):
        return SStr(self.cs * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (str, SStr)):
            return False
        oc = o.cs if isinstance(o, SStr) else o
        if len(oc) != len(self.cs):
            return False
        return s_and(*[eq_char(a, b) for a, b in zip(self.cs, oc)])

    def __ne__(self, o):
        return core.s_not(self.__eq__(o))

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return s_or(*[self.startswith(q, *a) for q in p])
        t = self[slice(*a)] if a else self
        return t[:len(p)] == p

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return s_or(*[self.endswith(q, *a) for q in p])
        t = self[slice(*a)] if a else self
        return len(p) <= len(t) and t[len(t) - len(p):] == p

    def _positions(self, sub, lo=0, hi=None):
        n = len(self)
        lo, hi, _ = slice(lo, hi).indices(n)
        return range(lo, hi - len(sub) + 1)

    def find(self, sub, *a):
        for k in self._positions(sub, *a):
            if self[k:k + len(sub)] == sub:
                return k
        return -1

    def rfind(self, sub, *a):
        for k in reversed(self._positions(sub, *a)):
            if self[k:k + len(sub)] == sub:
                return k
        return -1

    def index(self, sub, *a):
        k = self.find(sub, *a)
        if k < 0:
            raise ValueError('substring not found')
        return k

    def rindex(self, sub, *a):
        k = self.rfind(sub, *a)
        if k < 0:
            raise ValueError('substring not found')
        return k

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def count(self, sub):
        return len(self.split(sub)) - 1

    def partition(self, sep):
        k = self.find(sep)
        return (self, SStr(''), SStr('')) if k < 0 else (self[:k], SStr(sep), self[k + len(sep):])

    def rpartition(self, sep):
        k = self.rfind(sep)
        return (SStr(''), SStr(''), self) if k < 0 else (self[:k], SStr(sep), self[k + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return [SStr(x) for x in self.concrete().split(None, maxsplit)]
        out, t = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            k = t.find(sep)
            if k < 0:
                break
            out.append(t[:k])
            t = t[k + len(sep):]
        return out + [t]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return [SStr(x) for x in self.concrete().rsplit(None, maxsplit)]
        out, t = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            k = t.rfind(sep)
            if k < 0:
                break
            out.insert(0, t[k + len(sep):])
            t = t[:k]
        return [t] + out

    def replace(self, a, b, count=-1):
        parts = self.split(a, count)
        out = parts[0]
        for p in parts[1:]:
            out = out + b + p
        return out

    def lower(self):
        return SStr([_swap(c, False) for c in self.cs])

    casefold = lower

    def upper(self):
        return SStr([_swap(c, True) for c in self.cs])

    def lstrip(self, what=' '):
        k = 0
        while k < len(self) and any(bool(eq_char(self.cs[k], w)) for w in (what or ' ')):
            k += 1
        return self[k:]

    def rstrip(self, what=' '):
        k = len(self)
        while k and any(bool(eq_char(self.cs[k - 1], w)) for w in (what or ' ')):
            k -= 1
        return self[:k]

    def strip(self, what=' '):
        return self.lstrip(what).rstrip(what)

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def removeprefix(self, p):
        return self[len(p):] if p and self.startswith(p) else self

    def join(self, parts):
        out = SStr('')
        for i, p in enumerate(parts):
            out = out + (self if i else '') + p
        return out

    def __getattr__(self, k):
        # any other str method: on the concrete text
        if k.startswith('__') or not hasattr(str, k):
            raise AttributeError(k)
        return lambda *a, **kw: getattr(self.concrete(), k)(*a, **kw)


def normpath(p):
    if not isinstance(p, SStr):
        return os.path.normpath(p)
    lead = '/' if p.startswith(SEP) else ''
    if lead and p.startswith('//') and not p.startswith('///'):
        lead = '//'
    comps = []
    for x in p.split(SEP):
        if len(x) == 0 or x == '.':
            continue
        if not (x == '..') or (not lead and not comps) or (comps and comps[-1] == '..'):
            comps.append(x)
        elif comps:
            comps.pop()
    r = SStr(lead) + SStr(SEP).join(comps)
    return r if len(r) else SStr('.')


def abspath(p):
    if not isinstance(p, SStr):
        return os.path.abspath(p)
    return normpath(p if p.startswith(SEP) else os.getcwd() + '/' + p)


def make_os(over=None):
    """(os, os.path) with the library's own path functions executed on symbolic text."""
    import genericpath
    import posixpath

    def fspath(p):
        return p if isinstance(p, SStr) else os.fspath(p)
    fos = types.ModuleType('os')
    fos.__dict__.update({k: v for k, v in vars(os).items() if not k.startswith('__')})
    fos.fspath = fspath
    mods = {}
    for m in (genericpath, posixpath):
        src = open(os.path.join(os.path.dirname(os.__file__), m.__name__ + '.py')).read()
        n = types.ModuleType(m.__name__)
        exec(compile(src, m.__name__, 'exec'), n.__dict__)
        n.os = fos
        mods[m.__name__] = n
    path = mods['posixpath']
    path.genericpath = mods['genericpath']
    for k in dir(posixpath):
        f, real = getattr(path, k, None), getattr(posixpath, k)
        if not isinstance(f, types.FunctionType) or k.startswith('_'):
            continue

        def wrap(f=f, real=real):
            def g(*a, **kw):
                if not any(isinstance(x, SStr) for x in a):
                    return real(*a, **kw)
                try:
                    return f(*a, **kw)
                except (TypeError, AttributeError):
                    return real(*[x.concrete() if isinstance(x, SStr) else x for x in a], **kw)
            return g
        setattr(path, k, wrap())
    path.normpath, path.abspath = normpath, abspath
    for k, v in (over or {}).items():
        if k in ('exists', 'isfile', 'lexists', 'samefile'):
            setattr(path, k, v)
        else:
            setattr(fos, k, v)
    fos.path = path
    return fos, path


def concretise_args(f):
    def g(*a, **kw):
        return f(*[x.concrete() if isinstance(x, SStr) else x for x in a], **kw)
    return g


def name(c, tag, n, alphabet):
    """A text of exactly n characters of the alphabet."""
    out = []
    for i in range(n):
        k = c.int(f'{tag}{i}', 0, len(alphabet) - 1)
        if not c.symbolic:
            out.append(alphabet[k])
            continue
        x = ALPHABET.index(alphabet[-1])
        for j, ch in reversed(list(enumerate(alphabet[:-1]))):
            x = ite(k == j, ALPHABET.index(ch), x)
        out.append(x)
    return SStr(out) if c.symbolic else ''.join(out)
