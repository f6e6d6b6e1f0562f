"""Let the real python-docx accept symbolic lengths and colours.

Attribute values become tokens in the real lxml document; `checks/docxread.py` decodes them.  Lengths
that are not known to be whole EMU / twips are kept unrounded (they then differ from the written value by
less than one EMU / half a twip)."""
from fractions import Fraction

from . import core
from .core import SymNum, SymBool, mk, lift


class SymLength(SymNum):
    """Symbolic count of EMU."""
    __slots__ = ()

    @property
    def emu(self):
        return self

    @property
    def pt(self):
        return SymNum.__truediv__(self, 12700)

    @property
    def inches(self):
        return SymNum.__truediv__(self, 914400)

    @property
    def cm(self):
        return SymNum.__truediv__(self, 360000)

    @property
    def mm(self):
        return SymNum.__truediv__(self, 36000)

    @property
    def twips(self):
        return rounded(SymNum.__truediv__(self, 635))


def rounded(x):
    """x as an integer: exact where x is known to be one, else x itself."""
    if not isinstance(x, SymNum) or x.isint:
        return x
    r = object.__new__(SymNum)
    r.n, r.d, r.isint = x.n, x.d, True
    return r


def length(x):
    if not isinstance(x, SymNum):
        return None
    r = object.__new__(SymLength)
    r.n, r.d, r.isint = x.n, x.d, True
    return r


def install():
    import docx.shared as S
    import docx.text.parfmt as PF
    import docx.oxml.simpletypes as ST
    from . import shadows

    S.Length.__new__ = staticmethod(lambda c, v: length(v) if isinstance(v, SymNum) else int.__new__(c, v))

    def patch(cls, factor):
        orig = cls.__new__

        def new(c, v=0):
            if isinstance(v, SymBool):
                v = v.num()
            if isinstance(v, SymNum):
                return length(v * factor)
            return orig(c, v)
        cls.__new__ = staticmethod(new)
    for name, k in (('Emu', 1), ('Pt', 12700), ('Twips', 635), ('Inches', 914400), ('Cm', 360000), ('Mm', 36000)):
        patch(getattr(S, name), k)

    class LenMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, (S.Length, SymLength))

    class AnyLength(metaclass=LenMeta):
        def __new__(cls, v):
            return length(v) if isinstance(v, SymNum) else S.Length(v)
    PF.Length = AnyLength

    orig_hex = ST.ST_HexColor.__dict__['convert_to_xml'].__func__

    def to_hex(cls, value):
        if any(isinstance(v, SymNum) for v in value):
            from .symstr import digits, HexDigits
            out = []
            for v in value:
                out += digits(v, 2) if isinstance(v, SymNum) else list('%02X' % v)
            return str(HexDigits(out))
        return orig_hex(cls, value)
    ST.ST_HexColor.convert_to_xml = classmethod(to_hex)
    shadows.install('docx')
