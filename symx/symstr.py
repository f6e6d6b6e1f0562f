"""Symbolic hexadecimal digits and symbolic file names."""
from . import core
from .core import SymNum, s_and, s_or, ite


class HexDigits:
    """hex() text of a symbolic integer: '0x' + digits, most significant first,
    with a concrete number of digits (forked)."""

    def __init__(self, chars):
        self.chars = chars          # list of str chars or SymNum digit values

    def __len__(self):
        return len(self.chars)

    def __getitem__(self, i):
        r = self.chars[i]
        return HexDigits(list(r) if isinstance(i, slice) else [r])

    def __add__(self, o):
        return HexDigits(self.chars + list(o.chars if isinstance(o, HexDigits) else o))

    def __radd__(self, o):
        return HexDigits(list(o) + self.chars)

    def zfill(self, n):
        return HexDigits(['0'] * max(0, n - len(self.chars)) + self.chars)

    def rjust(self, n, c=' '):
        return HexDigits([c] * max(0, n - len(self.chars)) + self.chars)

    def upper(self):
        return HexDigits([c.upper() if isinstance(c, str) else c for c in self.chars])

    def lower(self):
        return HexDigits([c.lower() if isinstance(c, str) else c for c in self.chars])

    def lstrip(self, what=None):
        c = list(self.chars)
        while c and isinstance(c[0], str) and (c[0].isspace() if what is None else c[0] in what):
            c.pop(0)
        return HexDigits(c)

    def startswith(self, s):
        return ''.join(c if isinstance(c, str) else '?' for c in self.chars[:len(s)]) == s

    def value(self, base=16):
        v = 0
        chars = self.chars
        if len(chars) > 2 and chars[0] == '0' and chars[1] in ('x', 'X'):
            chars = chars[2:]
        if not chars:
            raise ValueError('invalid literal for int()')
        for c in chars:
            v = v * base + (int(c, base) if isinstance(c, str) else c)
        return v

    def __symint__(self, base=10):
        return self.value(base)

    def __str__(self):
        return ''.join(c if isinstance(c, str) else core.ENG.token(core.SymFmt(c, 'x')) for c in self.chars)

    __repr__ = __str__

    def __format__(self, spec):
        return format(str(self), spec)

    def __eq__(self, o):
        if isinstance(o, HexDigits):
            return self.value() == o.value() if len(self) == len(o) else False
        if isinstance(o, str):
            return len(o) == len(self) and self.value() == int(o, 16)
        return NotImplemented

    def __hash__(self):
        return 0


def _bytes(x, n):
    """The n base-256 digits of a symbolic integer, taken apart term by term
    where its terms are visibly bytes (65536*r + 256*g + b), else None."""
    if not isinstance(x, SymNum) or x.d is not None or any(not isinstance(k, int) for k in x.n.values()):
        return None
    rest, out = x.n, []
    for k in range(n - 1, -1, -1):
        p = 256 ** k
        part = {m: c // p for m, c in rest.items() if c // p}
        rest = {m: c % p for m, c in rest.items() if c % p}
        y = core.mk(part, None, True)
        if isinstance(y, SymNum) and core.ENG.implied(s_and(y >= 0, y <= 255)) is not True:
            return None
        if not isinstance(y, SymNum) and not 0 <= y <= 255:
            return None
        out.append(y)
    return out


def digits(x, n):
    """n base-16 digits of x (0 <= x < 16**n), most significant first."""
    out = []
    by = _bytes(x, (n + 1) // 2)
    if by is not None:
        for y in by:
            h = y // 16
            out += [h, y - 16 * h]
        return out[len(out) - n:]
    for k in range(n - 1, -1, -1):
        out.append((x // (16 ** k)) % 16)
    return out


def sym_hex(x, prefix='0x'):
    n = 1
    while not bool(x < 16 ** n):
        n += 1
        if n > 8:
            raise core.EngineError('hex() of an unbounded number')
    return HexDigits(list(prefix) + digits(x, n))


class SRange:
    """range() whose bounds may be symbolic (step 1 then)."""

    def __init__(self, *a):
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (a[0], a[1], 1)
        self.start, self.stop, self.step = a

    def _len(self):
        if self.step != 1:
            raise core.EngineError('length of a stepped symbolic range')
        d = self.stop - self.start
        return ite(d > 0, d, 0)

    def __len__(self):
        n = self._len()
        return n if isinstance(n, int) else n.__index__()

    def __iter__(self):
        i, s, e, d = 0, self.start, self.stop, self.step
        while bool((s < e) if d > 0 else (s > e)):
            yield s
            s = s + d

    def __reversed__(self):
        n = len(self)
        return iter([self.start + i for i in range(n - 1, -1, -1)])

    def __contains__(self, x):
        return bool(s_and(x >= self.start, x < self.stop))

    def __getitem__(self, i):
        if isinstance(i, slice):
            s, e = norm_slice(i, self._len())
            return SRange(self.start + s, self.start + e)
        n = self._len()
        if bool(i < 0):
            i = i + n
        if bool(s_or(i < 0, i >= n)):
            raise IndexError('range object index out of range')
        return self.start + i

    def __bool__(self):
        return bool(self.stop > self.start)

    def __eq__(self, o):
        return list(self) == list(o)

    def __hash__(self):
        return 0


def norm_slice(sl, n):
    """(start, stop) of a step-1 slice over a sequence of length n."""
    if sl.step not in (None, 1):
        raise core.EngineError('slice step')
    out = []
    for v, dflt in ((sl.start, 0), (sl.stop, n)):
        if v is None:
            out.append(dflt)
            continue
        v = ite(v < 0, ite(v + n < 0, 0, v + n), ite(v > n, n, v))
        out.append(v)
    return out


class CRange(SRange):
    """A concrete range that accepts symbolic slices."""

    def __init__(self, r):
        self.r = r
        self.start, self.stop, self.step = r.start, r.stop, r.step

    def __len__(self):
        return len(self.r)

    def _len(self):
        return len(self.r)

    def __iter__(self):
        return iter(self.r)

    def __reversed__(self):
        return reversed(self.r)

    def __contains__(self, x):
        return SRange.__contains__(self, x) if isinstance(x, SymNum) else x in self.r

    def __getitem__(self, i):
        if isinstance(i, slice):
            if any(isinstance(v, SymNum) for v in (i.start, i.stop, i.step)):
                if self.step != 1:
                    raise core.EngineError('slice of a stepped range')
                return SRange.__getitem__(self, i)
            return CRange(self.r[i])
        if isinstance(i, SymNum):
            return SRange.__getitem__(self, i)
        return self.r[i]

    def __bool__(self):
        return bool(self.r)

    def index(self, x):
        return self.r.index(x)

    def count(self, x):
        return self.r.count(x)

    def __repr__(self):
        return repr(self.r)


def s_range(*a):
    if any(isinstance(x, SymNum) for x in a):
        return SRange(*a)
    return CRange(range(*a))


class SymSeq(list):
    """A list that accepts symbolic step-1 slices."""

    def __getitem__(self, i):
        if isinstance(i, slice) and any(isinstance(v, SymNum) for v in (i.start, i.stop, i.step)):
            s, e = norm_slice(i, len(self))
            return [list.__getitem__(self, k) for k in SRange(s, e)]
        if isinstance(i, SymNum):
            n = len(self)
            if bool(s_or(i >= n, i < -n)):
                raise IndexError('list index out of range')
        return list.__getitem__(self, i)
