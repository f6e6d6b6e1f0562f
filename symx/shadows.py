"""Builtins seen by the code under test, extended to symbolic values."""
import builtins
import math
import sys
import types
from fractions import Fraction

from . import core
from .core import (SymNum, SymBool, SymFmt, trunc, to_real, sround, smax, smin, ite,
                   s_and, s_or, s_not, TOK0)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, SymNum) and o.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SInt(metaclass=_IntMeta):
    def __new__(cls, *a, **kw):
        if a:
            x = a[0]
            if isinstance(x, (SymNum, SymBool)):
                return trunc(x)
            if hasattr(x, '__symint__'):
                return x.__symint__(*a[1:], **kw)
            if type(x) is str and (TOK0 in x or x.startswith('917')) and core.ENG is not None:
                o = core.ENG.untoken(x)
                if isinstance(o, SymNum):
                    return trunc(o)
                if isinstance(o, SymFmt):
                    return o.num
        return int(*a, **kw)

    from_bytes = int.from_bytes
    bit_length = int.bit_length


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, SymNum) and not o.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SFloat(metaclass=_FloatMeta):
    def __new__(cls, *a):
        if a:
            x = a[0]
            if isinstance(x, SymNum):
                return to_real(x)
            if isinstance(x, SymBool):
                return to_real(x.num())
            if hasattr(x, '__symfloat__'):
                return x.__symfloat__()
            if type(x) is str and TOK0 in x:
                o = core.ENG.untoken(x)
                if isinstance(o, SymNum):
                    return to_real(o)
        return float(*a)


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, str)

    def __subclasscheck__(cls, c):
        return issubclass(c, str)

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)


def s_round(x, nd=None):
    if isinstance(x, SymBool):
        x = x.num()
    if isinstance(x, SymNum):
        return sround(x, nd)
    return round(x) if nd is None else round(x, nd)


def s_hex(x):
    if isinstance(x, SymNum):
        from .symstr import sym_hex
        return sym_hex(x)
    return hex(x)


def s_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def s_any(it):
    for x in it:
        if x:
            return True
    return False


def s_type(*a):
    if len(a) == 1:
        if isinstance(a[0], SymNum):
            return int if a[0].isint else float
        if isinstance(a[0], SymBool):
            return bool
    return type(*a)


def s_print(*a, **k):
    pass


class SMath(types.ModuleType):
    pass


def _smath():
    m = SMath('math')
    for k in dir(math):
        setattr(m, k, getattr(math, k))

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not isinstance(a, SymNum) and not isinstance(b, SymNum):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = abs(a - b)
        return s_or(d <= rel_tol * smax(abs(a), abs(b)), d <= abs_tol)

    m.isclose = isclose
    m.fabs = lambda x: to_real(abs(x)) if isinstance(x, SymNum) else math.fabs(x)
    m.floor = lambda x: x.__floor__() if isinstance(x, SymNum) else math.floor(x)
    m.ceil = lambda x: x.__ceil__() if isinstance(x, SymNum) else math.ceil(x)
    m.trunc = lambda x: trunc(x)
    m.fsum = s_sum
    m.isnan = lambda x: False if isinstance(x, SymNum) else math.isnan(x)
    m.isinf = lambda x: False if isinstance(x, SymNum) else math.isinf(x)
    m.isfinite = lambda x: True if isinstance(x, SymNum) else math.isfinite(x)
    return m


SMATH = _smath()

from .symstr import s_range  # noqa: E402
from .keyed import SDict, SSet  # noqa: E402

SHADOW = dict(range=s_range, int=SInt, float=SFloat, round=s_round, max=smax, min=smin, hex=s_hex,
              sum=s_sum, type=s_type, print=s_print, dict=SDict, set=SSet)


def install(prefix='pdf2docx'):
    """Give every loaded module of the code under test the extended builtins."""
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == prefix or name.startswith(prefix + '.')):
            continue
        for k, v in SHADOW.items():
            if k not in mod.__dict__:
                mod.__dict__[k] = v
        if mod.__dict__.get('math') is math:
            mod.__dict__['math'] = SMATH
        for k in ('floor', 'ceil', 'fabs', 'isclose', 'trunc'):
            if mod.__dict__.get(k) is getattr(math, k):
                mod.__dict__[k] = getattr(SMATH, k)
