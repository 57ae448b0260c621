"""Symbolic stand-ins for int, bool results, bytes, bytearray, str and float."""

from __future__ import annotations

import builtins
import itertools

import z3

from . import core
from .core import (
    Concretise,
    b_and,
    b_eq,
    b_le,
    b_lt,
    b_not,
    b_or,
    byte_it,
    code_it,
    ext,
    mk,
    r_from_els,
    r_ite,
    r_to_els,
    rng,
    simp_el,
    zb,
)

nint, nbytes, nstr, nfloat, nbool = int, bytes, str, float, bool
nbytearray, nmemoryview = bytearray, memoryview
nisinstance = isinstance

_ids = itertools.count(1)
PH_OPEN, PH_CLOSE = "⟦", "⟧"


def placeholder(value, spec):
    """A native string that stands for the decimal/hex/... rendering of a symbolic value."""
    i = next(_ids)
    core.cur().placeholders[i] = (value, spec)
    return f"{PH_OPEN}{i}{PH_CLOSE}"


def raw(x):
    """Raw integer (int or IT) of an int-like object, or None."""
    t = type(x)
    if t is nint:
        return x
    if t is nbool:
        return nint(x)
    if nisinstance(x, SInt):
        return x._sv
    if t is SBool:
        return r_ite(x.c, 1, 0)
    if nisinstance(x, nint):
        return nint(x)
    return None


def wrap(v):
    """Raw integer -> native int or SInt."""
    if type(v) is nint:
        return v
    o = object.__new__(SInt)
    object.__setattr__(o, "_sv", v)
    return o


def wb(c):
    """bool or z3 Bool -> bool or SBool."""
    return c if type(c) is nbool else SBool(c)


def cond(x):
    """Anything truthy -> bool or z3 Bool, without forking if possible."""
    if type(x) is nbool:
        return x
    if type(x) is SBool:
        return x.c
    if nisinstance(x, z3.BoolRef):
        return x
    return nbool(x)


class SBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return core.cur().branch(self.c)

    def __eq__(self, o):
        if type(o) is SBool:
            return wb(zb(self.c == o.c))
        if type(o) is nbool:
            return wb(self.c if o else b_not(self.c))
        r = raw(o)
        if r is None:
            return NotImplemented
        return wb(b_eq(raw(self), r))

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else wb(b_not(cond(r)))

    def __hash__(self):
        return hash(nbool(self))

    def __and__(self, o):
        return wb(b_and(self.c, cond(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wb(b_or(self.c, cond(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return wb(zb(z3.Xor(self.c, core.z3.BoolVal(cond(o)) if type(cond(o)) is nbool else cond(o))))

    __rxor__ = __xor__

    def __add__(self, o):
        return wrap(core.op_add(raw(self), raw(o)))

    __radd__ = __add__

    def __index__(self):
        return nint(nbool(self))

    def __repr__(self):
        return f"<SBool {self.c}>"


def _conc(v):
    return core.cur().split(v)


def _arith(name, symop, native):
    def f(self, other):
        b = raw(other)
        if b is None:
            return NotImplemented
        a = self._sv
        if type(a) is nint and type(b) is nint:
            return native(a, b)
        try:
            return wrap(symop(a, b))
        except Concretise:
            return wrap(symop(_conc(a), _conc(b)))

    def r(self, other):
        b = raw(other)
        if b is None:
            return NotImplemented
        a = self._sv
        if type(a) is nint and type(b) is nint:
            return native(b, a)
        try:
            return wrap(symop(b, a))
        except Concretise:
            return wrap(symop(_conc(b), _conc(a)))

    f.__name__ = f"__{name}__"
    r.__name__ = f"__r{name}__"
    return f, r


def _shl(a, b):
    if core.cur() and type(b) is not nint and rng(b)[0] < 0:
        if core.cur().branch(b_lt(b, 0)):
            raise ValueError("negative shift count")
        b = _nonneg(b)
    if type(b) is nint and b < 0:
        raise ValueError("negative shift count")
    return core.op_shl(a, b)


def _shr(a, b):
    if type(b) is not nint and rng(b)[0] < 0:
        if core.cur().branch(b_lt(b, 0)):
            raise ValueError("negative shift count")
        b = _nonneg(b)
    if type(b) is nint and b < 0:
        raise ValueError("negative shift count")
    return core.op_shr(a, b)


def _nonneg(b):
    return mk(ext(b, core.wof(0, b.hi)), 0, b.hi) if b.lo < 0 else b


def _div(a, b):
    if core.cur().branch(b_eq(b, 0)) if type(b) is not nint else b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    return core._tdiv_floor(a, b)


def _fdiv(a, b):
    return _div(a, b)[0]


def _mod(a, b):
    return _div(a, b)[1]


def _pow(a, b):
    if type(b) is nint:
        if b < 0:
            return nint(_conc(a)) ** b
        r = 1
        for _ in range(b):
            r = core.op_mul(r, a)
        return r
    if a == 2 or (type(a) is nint and a > 1 and a & (a - 1) == 0):
        k = a.bit_length() - 1
        return _shl(1, core.op_mul(b, k) if k != 1 else b)
    raise Concretise


class SInt:
    """Stand-in for ``int``; subclassable.  ``_sv`` is a native int or an :class:`IT`."""

    def __new__(cls, value=0, base=None, /, **kw):
        if base is None and "base" in kw:
            base = kw["base"]
        r = to_int_raw(value, base)
        if cls is SInt:
            return wrap(r)
        o = object.__new__(cls)
        object.__setattr__(o, "_sv", r)
        return o

    # class level ------------------------------------------------------------------------------------------------
    @classmethod
    def from_bytes(cls, data, byteorder="big", *, signed=False):
        els = bytes_els(data)
        if byteorder not in ("big", "little"):
            raise ValueError("byteorder must be either 'little' or 'big'")
        els = list(els)
        if byteorder == "little":
            els.reverse()
        return cls(wrap(r_from_els(els, nbool(signed))))

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        v = raw(self)
        length = nint(length)
        if length < 0:
            raise ValueError("length argument must be non-negative")
        if type(v) is nint:
            return v.to_bytes(length, byteorder, signed=nbool(signed))
        if byteorder not in ("big", "little"):
            raise ValueError("byteorder must be either 'little' or 'big'")
        c = core.cur()
        if not signed and c.branch(b_lt(v, 0)):
            raise OverflowError("can't convert negative int to unsigned")
        n = 8 * length
        if signed:
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if n else (0, 0)
        else:
            lo, hi = 0, (1 << n) - 1
        if not c.branch(b_and(b_le(lo, v), b_le(v, hi))):
            raise OverflowError("int too big to convert")
        els = r_to_els(v, length)
        if byteorder == "little":
            els.reverse()
        return mkbytes(els)

    def bit_length(self):
        v = raw(self)
        if type(v) is nint:
            return v.bit_length()
        m = r_ite(b_lt(v, 0), core.op_neg(v), v)
        if type(m) is nint:
            return m.bit_length()
        n = m.hi.bit_length()
        r = 0
        w = core.wof(0, n)
        t = z3.BitVecVal(0, w)
        for i in range(n):
            t = z3.If(ext(m, core.wof(0, m.hi) + 1) >= (1 << i), z3.BitVecVal(i + 1, w), t)
        del r
        return wrap(mk(t, 0, n))

    def bit_count(self):
        v = raw(self)
        if type(v) is nint:
            return v.bit_count()
        m = r_ite(b_lt(v, 0), core.op_neg(v), v)
        out = 0
        for i in range(rng(m)[1].bit_length()):
            out = core.op_add(out, core.op_and(core.op_shr(m, i), 1))
        return wrap(out)

    @property
    def real(self):
        return wrap(raw(self))

    @property
    def imag(self):
        return 0

    numerator = real
    denominator = 1

    def conjugate(self):
        return wrap(raw(self))

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return (wrap(raw(self)), 1)

    __add__, __radd__ = _arith("add", core.op_add, lambda a, b: a + b)
    __sub__, __rsub__ = _arith("sub", core.op_sub, lambda a, b: a - b)
    __and__, __rand__ = _arith("and", core.op_and, lambda a, b: a & b)
    __or__, __ror__ = _arith("or", core.op_or, lambda a, b: a | b)
    __xor__, __rxor__ = _arith("xor", core.op_xor, lambda a, b: a ^ b)
    __lshift__, __rlshift__ = _arith("lshift", _shl, lambda a, b: a << b)
    __rshift__, __rrshift__ = _arith("rshift", _shr, lambda a, b: a >> b)
    __floordiv__, __rfloordiv__ = _arith("floordiv", _fdiv, lambda a, b: a // b)
    __mod__, __rmod__ = _arith("mod", _mod, lambda a, b: a % b)
    __pow__, __rpow__ = _arith("pow", _pow, lambda a, b: a**b)
    _mul, _rmul = _arith("mul", core.op_mul, lambda a, b: a * b)

    def __mul__(self, other):
        if nisinstance(other, (list, tuple, nbytes, nstr, SBytes, SStr, nbytearray)):
            return other * _conc(self._sv)
        return SInt._mul(self, other)

    __rmul__ = __mul__

    def __truediv__(self, other):
        return _conc(self._sv) / _conc(raw(other))

    def __rtruediv__(self, other):
        return _conc(raw(other)) / _conc(self._sv)

    def __divmod__(self, other):
        q, r = _div(self._sv, raw(other))
        return wrap(q), wrap(r)

    def __rdivmod__(self, other):
        q, r = _div(raw(other), self._sv)
        return wrap(q), wrap(r)

    def __neg__(self):
        v = raw(self)
        return -v if type(v) is nint else wrap(core.op_neg(v))

    def __pos__(self):
        return wrap(raw(self))

    def __invert__(self):
        v = raw(self)
        return ~v if type(v) is nint else wrap(core.op_inv(v))

    def __abs__(self):
        v = raw(self)
        return abs(v) if type(v) is nint else wrap(r_ite(b_lt(v, 0), core.op_neg(v), v))

    def __eq__(self, o):
        b = raw(o)
        if b is None:
            if nisinstance(o, (nfloat, SFloat)):
                return SFloat._eq(tofloat(self), o)
            return NotImplemented
        return wb(b_eq(raw(self), b))

    def __ne__(self, o):
        r = SInt.__eq__(self, o)
        return NotImplemented if r is NotImplemented else wb(b_not(cond(r)))

    def __lt__(self, o):
        b = raw(o)
        return NotImplemented if b is None else wb(b_lt(raw(self), b))

    def __le__(self, o):
        b = raw(o)
        return NotImplemented if b is None else wb(b_le(raw(self), b))

    def __gt__(self, o):
        b = raw(o)
        return NotImplemented if b is None else wb(b_lt(b, raw(self)))

    def __ge__(self, o):
        b = raw(o)
        return NotImplemented if b is None else wb(b_le(b, raw(self)))

    def __bool__(self):
        v = raw(self)
        if type(v) is nint:
            return v != 0
        return core.cur().branch(b_not(b_eq(v, 0)))

    def __hash__(self):
        v = raw(self)
        return hash(v if type(v) is nint else _conc(v))

    def __index__(self):
        v = raw(self)
        return v if type(v) is nint else _conc(v)

    __int__ = __index__
    __trunc__ = __index__
    __floor__ = __index__
    __ceil__ = __index__

    def __round__(self, n=None):
        return wrap(raw(self))

    def __float__(self):
        return nfloat(SInt.__index__(self))

    def __repr__(self):
        v = raw(self)
        return nint.__repr__(v) if type(v) is nint else placeholder(self, "")

    __str__ = __repr__

    def __format__(self, spec):
        v = raw(self)
        if type(v) is nint:
            return format(v, spec)
        return placeholder(self, spec)

    def __getnewargs__(self):
        return (nint(self),)


def to_int_raw(value, base=None):
    t = type(value)
    if base is not None:
        if t is nstr:
            return nint(value, nint(base))
        if t is SStr:
            return parse_int(value._cv, nint(base))
        return nint(nbytes(value), base)
    r = raw(value)
    if r is not None:
        return r
    if nisinstance(value, SStr):
        return parse_int(value._cv, 10)
    if nisinstance(value, SBytes):
        return parse_int([byte_code(e) for e in value._bv], 10)
    if nisinstance(value, SFloat):
        return nint(value.concrete())
    m = getattr(type(value), "__int__", None)
    if m is not None and not nisinstance(value, (nstr, nbytes, nfloat)):
        return raw(m(value))
    return nint(value)


def byte_code(e):
    return e if type(e) is nint else z3.ZeroExt(13, e)


def in_set(code, chars):
    """Is the raw integer ``code`` one of the characters?  bool or z3 Bool, as a range disjunction."""
    cs = sorted({ord(c) for c in chars})
    if type(code) is nint:
        return code in cs
    out = []
    i = 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
            j += 1
        out.append(b_eq(code, cs[i]) if i == j else b_and(b_le(cs[i], code), b_le(code, cs[j])))
        i = j + 1
    r = b_or(*out)
    return r if type(r) is nbool else zb(r)


def parse_int(codes, base):
    """int(text, base) for a text with symbolic characters (ASCII digits)."""
    br = core.cur().branch
    cs = [code_it(c) for c in codes]
    ws = " \t\n\r\x0b\x0c"
    while cs and br(in_set(cs[0], ws)):
        cs.pop(0)
    while cs and br(in_set(cs[-1], ws)):
        cs.pop()
    err = ValueError(f"invalid literal for int() with base {base}")
    neg = False
    if cs and br(in_set(cs[0], "+-")):
        neg = br(b_eq(cs[0], ord("-")))
        cs.pop(0)
    if not cs:
        raise err
    prefixed = False
    if base in (0, 16, 8, 2) and len(cs) >= 2 and br(b_eq(cs[0], ord("0"))):
        for b, ch in ((16, "xX"), (8, "oO"), (2, "bB")):
            if base in (0, b) and br(in_set(cs[1], ch)):
                base = b
                cs = cs[2:]
                prefixed = True
                break
    if base == 0:
        base = 10
        if len(cs) > 1 and br(b_eq(cs[0], ord("0"))) and br(b_or(*[b_not(in_set(c, "0_")) for c in cs])):
            raise err
    del prefixed
    if not cs:
        raise err
    val = 0
    digits = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    ok = []
    for i, c in enumerate(cs):
        if type(c) is not nint and 0 < i < len(cs) - 1 and br(b_eq(c, ord("_"))):
            return nint("".join(chr(_conc(x)) for x in cs), base)
        d = 0
        for k, ch in enumerate(digits):
            d = r_ite(in_set(c, ch + ch.upper()), k, d)
        ok.append(in_set(c, digits + digits.upper()))
        val = core.op_add(core.op_mul(val, base), d)
    if not br(b_and(*ok)):
        raise err
    return core.op_neg(val) if neg else val


# --------------------------------------------------------------------------------------------------------------
# sequences
# --------------------------------------------------------------------------------------------------------------


def bytes_els(x):
    """Elements of any bytes-like object."""
    if nisinstance(x, SBytes):
        return x._bv
    if nisinstance(x, (nbytes, nbytearray)):
        return tuple(x)
    if nisinstance(x, SByteArray):
        return tuple(x._l)
    if nisinstance(x, SMemoryView):
        return x._els()
    if nisinstance(x, nmemoryview):
        return tuple(x.cast("B") if x.format != "B" else x)
    m = getattr(type(x), "__bytes__", None)
    if m is not None:
        return bytes_els(m(x))
    if nisinstance(x, (list, tuple)):
        return tuple(to_byte(e) for e in x)
    raise TypeError(f"a bytes-like object is required, not '{type(x).__name__}'")


def is_byteslike(x):
    return nisinstance(x, (SBytes, nbytes, nbytearray, SByteArray, nmemoryview, SMemoryView))


def to_byte(x):
    r = raw(x)
    if r is None:
        raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")
    if type(r) is nint:
        if not 0 <= r < 256:
            raise ValueError("bytes must be in range(0, 256)")
        return r
    if not core.cur().branch(b_and(b_le(0, r), b_le(r, 255))):
        raise ValueError("bytes must be in range(0, 256)")
    return simp_el(z3.Extract(7, 0, ext(r, 8)))


def mkbytes(els):
    """Native bytes if concrete, else SBytes."""
    for e in els:
        if type(e) is not nint:
            o = object.__new__(SBytes)
            object.__setattr__(o, "_bv", tuple(els))
            return o
    return nbytes(els)


def els_eq(a, b):
    """Element-wise equality of two element sequences (bytes elements) as bool / z3 Bool."""
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is nint and type(y) is nint:
            if x != y:
                return False
            continue
        c = zb(x == y)
        if c is False:
            return False
        if c is not True:
            out.append(c)
    return b_and(*out)


def _idx(i, n):
    i = nint(i) if type(i) is nint else SInt.__index__(i) if nisinstance(i, SInt) else i.__index__()
    if i < 0:
        i += n
    if not 0 <= i < n:
        raise IndexError("index out of range")
    return i


def _slice(s, n):
    def c(x):
        return x if x is None or type(x) is nint else _clamp(x, n)

    return slice(c(s.start), c(s.stop), None if s.step is None else nint(s.step))


def _clamp(x, n):
    """Slice bound: every value past the end is the same bound, so do not enumerate them."""
    r = raw(x)
    if r is None:
        return x.__index__()
    if type(r) is nint:
        return r
    br = core.cur().branch
    if rng(r)[1] > n and br(b_lt(n, r)):
        return n
    if rng(r)[0] < -n and br(b_lt(r, -n)):
        return -n - 1
    return _conc(r)


class _Seq:
    """Shared part of SBytes and SStr: subclasses provide _e (elements), _mk (build), _lift (coerce or None), _it."""

    def __len__(self):
        return len(self._e())

    def __bool__(self):
        return len(self._e()) != 0

    def _hit(self, sub, i):
        e = self._e()
        return self._eqs(e[i : i + len(sub)], sub)

    def _need(self, x):
        s = self._lift(x)
        if s is None:
            raise TypeError(f"expected a compatible sequence, got {type(x).__name__}")
        return s

    def _bounds(self, start, end):
        n = len(self)
        s, e, _ = slice(start, end).indices(n) if (start is None or type(start) is nint) and (
            end is None or type(end) is nint
        ) else slice(_clamp(start, n) if start is not None else None, _clamp(end, n) if end is not None else None).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        sub = self._need1(sub)
        s, e = self._bounds(start, end)
        for i in range(s, e - len(sub) + 1):
            if core.cur().branch(self._hit(sub, i)):
                return i
        return -1

    def _need1(self, sub):
        return self._need(sub)

    def rfind(self, sub, start=None, end=None):
        sub = self._need1(sub)
        s, e = self._bounds(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if core.cur().branch(self._hit(sub, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def count(self, sub, start=None, end=None):
        sub = self._need1(sub)
        s, e = self._bounds(start, end)
        n = 0
        i = s
        while i <= e - len(sub):
            if core.cur().branch(self._hit(sub, i)):
                n += 1
                i += max(1, len(sub))
            else:
                i += 1
        return n

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def startswith(self, p, start=0, end=None):
        e = self._e()[start:end]
        if nisinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        p = self._need(p)
        return len(e) >= len(p) and core.cur().branch(self._eqs(e[: len(p)], p))

    def endswith(self, p, start=0, end=None):
        e = self._e()[start:end]
        if nisinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        p = self._need(p)
        return len(e) >= len(p) and core.cur().branch(self._eqs(e[len(e) - len(p) :], p))

    def removeprefix(self, p):
        return self._mk(self._e()[len(p) :]) if self.startswith(p) else self._mk(self._e())

    def removesuffix(self, p):
        return self._mk(self._e()[: len(self) - len(p)]) if len(p) and self.endswith(p) else self._mk(self._e())

    def partition(self, sep):
        i = self.find(sep)
        e = self._e()
        if i < 0:
            return self._mk(e), self._mk(()), self._mk(())
        n = len(self._need(sep))
        return self._mk(e[:i]), self._mk(e[i : i + n]), self._mk(e[i + n :])

    def rpartition(self, sep):
        i = self.rfind(sep)
        e = self._e()
        if i < 0:
            return self._mk(()), self._mk(()), self._mk(e)
        n = len(self._need(sep))
        return self._mk(e[:i]), self._mk(e[i : i + n]), self._mk(e[i + n :])

    def split(self, sep=None, maxsplit=-1):
        e = self._e()
        out = []
        br = core.cur().branch
        if sep is None:
            i = 0
            n = len(e)
            while True:
                while i < n and br(self._ws(e[i])):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while br(self._ws(e[j - 1])):
                        j -= 1
                    out.append(self._mk(e[i:j]))
                    return out
                j = i
                while j < n and not br(self._ws(e[j])):
                    j += 1
                out.append(self._mk(e[i:j]))
                i = j
        s = self._need(sep)
        i = last = 0
        while i <= len(e) - len(s):
            if (maxsplit < 0 or len(out) < maxsplit) and br(self._eqs(e[i : i + len(s)], s)):
                out.append(self._mk(e[last:i]))
                i += len(s)
                last = i
            else:
                i += 1
        out.append(self._mk(e[last:]))
        return out

    def _inset(self, x, chars):
        return self._ws(x) if chars is None else b_or(*[self._eqs((x,), (c,)) for c in self._need(chars)])

    def lstrip(self, chars=None):
        e = self._e()
        i = 0
        while i < len(e) and core.cur().branch(self._inset(e[i], chars)):
            i += 1
        return self._mk(e[i:])

    def rstrip(self, chars=None):
        e = self._e()
        i = len(e)
        while i > 0 and core.cur().branch(self._inset(e[i - 1], chars)):
            i -= 1
        return self._mk(e[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def replace(self, old, new, count=-1):
        o, nw = self._need(old), self._need(new)
        e = self._e()
        out = []
        i = 0
        k = 0
        while i < len(e):
            if o and i <= len(e) - len(o) and (count < 0 or k < count) and core.cur().branch(self._hit(o, i)):
                out.extend(nw)
                i += len(o)
                k += 1
            else:
                out.append(e[i])
                i += 1
        return self._mk(out)

    def join(self, parts):
        out = []
        s = self._e()
        for i, p in enumerate(parts):
            if i:
                out.extend(s)
            out.extend(self._need(p))
        return self._mk(out)

    def ljust(self, w, fill=None):
        f = self._need(fill) if fill is not None else self._SP
        return self._mk(tuple(self._e()) + f * max(0, nint(w) - len(self)))

    def rjust(self, w, fill=None):
        f = self._need(fill) if fill is not None else self._SP
        return self._mk(f * max(0, nint(w) - len(self)) + tuple(self._e()))

    def __add__(self, o):
        s = self._lift(o)
        if s is None:
            return NotImplemented
        return self._mk(tuple(self._e()) + tuple(s))

    def __radd__(self, o):
        s = self._lift(o)
        if s is None:
            return NotImplemented
        return self._mk(tuple(s) + tuple(self._e()))

    def __mul__(self, n):
        return self._mk(tuple(self._e()) * nint(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        s = self._lift(o)
        if s is None:
            return NotImplemented
        return wb(self._eqs(self._e(), s))

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else wb(b_not(cond(r)))

    def _cmp(self, o, strict, swap):
        s = self._lift(o)
        if s is None:
            return NotImplemented
        a, b = (s, self._e()) if swap else (self._e(), s)
        # a < b lexicographically
        res = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))):
            rx, ry = self._it(x), self._it(y)
            res = b_or(b_lt(rx, ry), b_and(b_eq(rx, ry), res))
        return wb(res if type(res) is nbool else zb(res))

    def __lt__(self, o):
        return self._cmp(o, True, False)

    def __le__(self, o):
        return self._cmp(o, False, False)

    def __gt__(self, o):
        return self._cmp(o, True, True)

    def __ge__(self, o):
        return self._cmp(o, False, True)

    def __iter__(self):
        for i in range(len(self._e())):
            yield self[i]

    def _native(self):
        raise core.Gap

    def __hash__(self):
        return hash(self._native())


class SBytes(_Seq):
    """Stand-in for ``bytes``; subclassable."""

    _SP = (32,)

    def __new__(cls, *args):
        if not args:
            els = ()
        elif len(args) == 1:
            (x,) = args
            r = raw(x)
            if r is not None and not is_byteslike(x):
                n = nint(r) if type(r) is nint else _conc(r)
                if n < 0:
                    raise ValueError("negative count")
                els = (0,) * n
            elif nisinstance(x, (nstr, SStr)):
                raise TypeError("string argument without an encoding")
            elif is_byteslike(x) or hasattr(type(x), "__bytes__"):
                els = bytes_els(x)
            else:
                els = tuple(to_byte(e) for e in x)
        else:
            els = bytes_els(str_encode(args[0], *args[1:]))
        if cls is SBytes:
            return mkbytes(els)
        o = object.__new__(cls)
        object.__setattr__(o, "_bv", tuple(els))
        return o

    def _e(self):
        return self._bv

    @staticmethod
    def _mk(els):
        return mkbytes(els)

    @staticmethod
    def _it(e):
        return byte_it(e)

    @staticmethod
    def _ws(e):
        return in_set(byte_it(e), " \t\n\r\x0b\x0c")

    @staticmethod
    def _eqs(a, b):
        return els_eq(a, b)

    def _lift(self, x):
        return bytes_els(x) if is_byteslike(x) else None

    def _need1(self, sub):
        r = raw(sub)
        return (to_byte(sub),) if r is not None else self._need(sub)

    def __getitem__(self, i):
        if nisinstance(i, slice):
            return mkbytes(self._bv[_slice(i, len(self._bv))])
        return wrap(byte_it(self._bv[_idx(i, len(self._bv))]))

    def decode(self, encoding="utf-8", errors="strict"):
        return bytes_decode(self._bv, encoding, errors)

    def hex(self, *args):
        if args:
            return self._native().hex(*args)
        out = []
        for e in self._bv:
            out.extend(hex_digits(byte_it(e), 2))
        return mkstr(out)

    def _native(self):
        return nbytes(e if type(e) is nint else _conc(byte_it(e)) for e in self._bv)

    def __bytes__(self):
        return mkbytes(self._bv)

    def __buffer__(self, flags):
        return nmemoryview(self._native())

    def __repr__(self):
        if all(type(e) is nint for e in self._bv):
            return repr(nbytes(self._bv))
        return placeholder(self, "r")

    __str__ = __repr__

    def __format__(self, spec):
        return format(repr(self), spec)

    @classmethod
    def fromhex(cls, s):
        return cls(nbytes.fromhex(s))

    def __getattr__(self, name):
        if name.startswith("_") or not hasattr(nbytes, name):
            raise AttributeError(f"'{type(self).__name__}' object has no attribute '{name}'")
        return getattr(self._native(), name)

    @staticmethod
    def maketrans(a, b):
        return nbytes.maketrans(a, b)


class SByteArray:
    """Stand-in for ``bytearray``."""

    def __init__(self, x=(), *enc):
        r = raw(x)
        if r is not None:
            self._l = [0] * (r if type(r) is nint else _conc(r))
        elif enc:
            self._l = list(bytes_els(str_encode(x, *enc)))
        elif is_byteslike(x):
            self._l = list(bytes_els(x))
        else:
            self._l = [to_byte(e) for e in x]

    def append(self, x):
        self._l.append(to_byte(x))

    def extend(self, x):
        self._l.extend(bytes_els(x) if is_byteslike(x) else [to_byte(e) for e in x])

    def insert(self, i, x):
        self._l.insert(i, to_byte(x))

    def pop(self, i=-1):
        return wrap(byte_it(self._l.pop(i)))

    def clear(self):
        self._l.clear()

    def reverse(self):
        self._l.reverse()

    def __iadd__(self, x):
        self.extend(x)
        return self

    def __len__(self):
        return len(self._l)

    def __getitem__(self, i):
        if nisinstance(i, slice):
            return SByteArray(mkbytes(self._l[_slice(i, len(self._l))]))
        return wrap(byte_it(self._l[_idx(i, len(self._l))]))

    def __setitem__(self, i, v):
        if nisinstance(i, slice):
            self._l[_slice(i, len(self._l))] = list(bytes_els(v) if is_byteslike(v) else [to_byte(e) for e in v])
        else:
            self._l[_idx(i, len(self._l))] = to_byte(v)

    def __delitem__(self, i):
        del self._l[i]

    def __iter__(self):
        for e in list(self._l):
            yield wrap(byte_it(e))

    def __eq__(self, o):
        if not is_byteslike(o):
            return NotImplemented
        return wb(els_eq(self._l, bytes_els(o)))

    __hash__ = None

    def __bytes__(self):
        return mkbytes(self._l)

    def __add__(self, o):
        return SByteArray(mkbytes(list(self._l) + list(bytes_els(o))))

    def __radd__(self, o):
        return mkbytes(list(bytes_els(o)) + list(self._l))

    def __buffer__(self, flags):
        return nmemoryview(SBytes._native(self._sb()))

    def _sb(self):
        o = object.__new__(SBytes)
        object.__setattr__(o, "_bv", tuple(self._l))
        return o

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._sb(), name)

    def __repr__(self):
        return f"bytearray({self._sb()!r})"


class SMemoryView:
    """Stand-in for ``memoryview`` over a symbolic buffer (1-byte items)."""

    def __init__(self, x):
        if not is_byteslike(x):
            raise TypeError(f"memoryview: a bytes-like object is required, not '{type(x).__name__}'")
        self._o = x
        self._r = None

    def _els(self):
        e = bytes_els(self._o)
        return e if self._r is None else e[self._r]

    format = "B"
    itemsize = 1
    contiguous = True

    @property
    def nbytes(self):
        return len(self._els())

    @property
    def obj(self):
        return self._o

    def __len__(self):
        return len(self._els())

    def __getitem__(self, i):
        e = self._els()
        if nisinstance(i, slice):
            return SMemoryView(mkbytes(e[_slice(i, len(e))]))
        return wrap(byte_it(e[_idx(i, len(e))]))

    def __iter__(self):
        return iter([wrap(byte_it(e)) for e in self._els()])

    def tobytes(self):
        return mkbytes(self._els())

    __bytes__ = tobytes

    def __eq__(self, o):
        return wb(els_eq(self._els(), bytes_els(o))) if is_byteslike(o) else NotImplemented

    __hash__ = None

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def cast(self, fmt):
        if fmt in ("B", "c"):
            return self
        return nmemoryview(nbytes(SBytes._native(SByteArray(self)._sb()))).cast(fmt)

    def __buffer__(self, flags):
        return nmemoryview(SBytes._native(SByteArray(self)._sb()))


# --------------------------------------------------------------------------------------------------------------
# text
# --------------------------------------------------------------------------------------------------------------


def hex_digits(v, n, upper=False):
    """``n`` hex digits of a raw non-negative integer below 16**n, as characters."""
    out = []
    base = ord("A" if upper else "a") - 10
    for i in range(n - 1, -1, -1):
        d = core.op_and(core.op_shr(v, 4 * i), 15)
        r = r_ite(b_lt(d, 10), core.op_add(d, 48), core.op_add(d, base))
        out.append(r if type(r) is nint else simp_el(_c21(r)))
    return out


def _c21(r):
    return z3.Extract(20, 0, ext(r, 22))


def str_els(x):
    if nisinstance(x, SStr):
        return x._cv
    if nisinstance(x, nstr):
        return tuple(map(ord, x))
    raise TypeError(f"expected str, got {type(x).__name__}")


def is_str(x):
    return nisinstance(x, (nstr, SStr))


def mkstr(els):
    for e in els:
        if type(e) is not nint:
            o = object.__new__(SStr)
            object.__setattr__(o, "_cv", tuple(els))
            return o
    return "".join(map(chr, els))


def bytes_decode(els, encoding, errors="strict"):
    enc = encoding.lower().replace("_", "-")
    if all(type(e) is nint for e in els):
        return nbytes(els).decode(encoding, errors)
    br = core.cur().branch
    if enc in ("latin-1", "latin1", "iso-8859-1", "iso8859-1"):
        return mkstr([byte_code(e) for e in els])
    if enc in ("ascii", "us-ascii", "utf-8", "utf8"):
        for i, e in enumerate(els):
            if not br(b_lt(byte_it(e), 128)):
                if enc.startswith("utf"):
                    return SBytes._native(SByteArray(mkbytes(els))._sb()).decode(encoding, errors)
                raise UnicodeDecodeError("ascii", b"?", i, i + 1, "ordinal not in range(128)")
        return mkstr([byte_code(e) for e in els])
    if enc in ("utf-16-le", "utf-16le", "utf-16-be", "utf-16be") and errors in ("strict", "surrogatepass", "replace", "ignore"):
        le = enc.endswith("le")
        units = []
        for i in range(0, len(els) - 1, 2):
            a, b = els[i], els[i + 1]
            units.append(r_from_els([b, a] if le else [a, b], False))
        out = []
        odd = True
        sub = [0xFFFD] if errors == "replace" else []
        i = 0
        while i < len(units):
            u = units[i]
            if errors == "surrogatepass" or not br(b_and(b_le(0xD800, u), b_le(u, 0xDFFF))):
                out.append(u)
                i += 1
                continue
            if not br(b_le(u, 0xDBFF)):
                if errors == "strict":
                    raise UnicodeDecodeError("utf-16", b"?", 2 * i, 2 * i + 2, "illegal encoding")
                out.extend(sub)
                i += 1
                continue
            if i + 1 >= len(units):
                if errors == "strict":
                    raise UnicodeDecodeError("utf-16", b"?", 2 * i, 2 * i + 2, "unexpected end of data")
                if len(els) % 2 == 0:
                    out.extend(sub)
                odd = False
                i += 1
                if len(els) % 2:
                    out.extend(sub)
                continue
            v = units[i + 1]
            if not br(b_and(b_le(0xDC00, v), b_le(v, 0xDFFF))):
                if errors == "strict":
                    raise UnicodeDecodeError("utf-16", b"?", 2 * i, 2 * i + 2, "illegal UTF-16 surrogate")
                out.extend(sub)
                i += 1
                continue
            cp = core.op_add(
                core.op_add(core.op_shl(core.op_and(u, 0x3FF), 10), core.op_and(v, 0x3FF)), 0x10000
            )
            out.append(cp)
            i += 2
        if len(els) % 2 and odd:
            if errors in ("replace", "ignore"):
                out.extend(sub)
                return mkstr([o if type(o) is nint else simp_el(_c21(o)) for o in out])
            raise UnicodeDecodeError("utf-16", b"?", len(els) - 1, len(els), "truncated data")
        return mkstr([o if type(o) is nint else simp_el(_c21(o)) for o in out])
    return SBytes._native(SByteArray(mkbytes(els))._sb()).decode(encoding, errors)


def str_encode(s, encoding="utf-8", errors="strict"):
    if type(s) is nstr or (nisinstance(s, nstr)):
        return nstr.encode(s, encoding, errors)
    els = s._cv
    enc = encoding.lower().replace("_", "-")
    if all(type(e) is nint for e in els):
        return "".join(map(chr, els)).encode(encoding, errors)
    br = core.cur().branch
    lim = {"latin-1": 256, "latin1": 256, "iso-8859-1": 256, "ascii": 128, "utf-8": 128, "utf8": 128}.get(enc)
    if lim and errors == "strict":
        out = []
        for i, e in enumerate(els):
            if not br(b_lt(code_it(e), lim)):
                if enc.startswith("utf"):
                    return SStr._native(s).encode(encoding, errors)
                raise UnicodeEncodeError(enc, "?", i, i + 1, "ordinal not in range")
            out.append(e if type(e) is nint else simp_el(z3.Extract(7, 0, e)))
        return mkbytes(out)
    if enc in ("utf-16-le", "utf-16le", "utf-16-be", "utf-16be") and errors in ("strict", "surrogatepass"):
        le = enc.endswith("le")
        out = []

        def unit(r):
            hi, lo = r_to_els(r, 2)
            out.extend((lo, hi) if le else (hi, lo))

        for i, e in enumerate(els):
            r = code_it(e)
            if errors == "strict" and br(b_and(b_le(0xD800, r), b_le(r, 0xDFFF))):
                raise UnicodeEncodeError("utf-16", "?", i, i + 1, "surrogates not allowed")
            if br(b_lt(r, 0x10000)):
                unit(mk(ext(r, 17), 0, 0xFFFF) if type(r) is not nint else r)
            else:
                v = core.op_sub(r, 0x10000)
                v = mk(ext(v, 21), 0, 0xFFFFF) if type(v) is not nint else v
                unit(core.op_add(core.op_shr(v, 10), 0xD800))
                unit(core.op_add(core.op_and(v, 0x3FF), 0xDC00))
        return mkbytes(out)
    return SStr._native(s).encode(encoding, errors)


class SStr(_Seq):
    """Stand-in for ``str``; subclassable."""

    _SP = (32,)

    def __new__(cls, *args, **kw):
        if len(args) > 1 or kw:
            x, enc, *err = (*args, *kw.values())
            v = bytes_decode(bytes_els(x), enc, *err)
        else:
            v = to_str(args[0]) if args else ""
        if cls is SStr:
            return v if nisinstance(v, nstr) and type(v) is nstr else mkstr(str_els(v))
        o = object.__new__(cls)
        object.__setattr__(o, "_cv", tuple(str_els(v)))
        return o

    def _e(self):
        return self._cv

    @staticmethod
    def _mk(els):
        return mkstr(els)

    @staticmethod
    def _it(e):
        return code_it(e)

    @staticmethod
    def _ws(e):
        return in_set(code_it(e), WS)

    @staticmethod
    def _eqs(a, b):
        return els_eq(a, b)

    def _lift(self, x):
        return str_els(x) if is_str(x) else None

    def __getitem__(self, i):
        if nisinstance(i, slice):
            return mkstr(self._cv[_slice(i, len(self._cv))])
        return mkstr((self._cv[_idx(i, len(self._cv))],))

    def encode(self, encoding="utf-8", errors="strict"):
        return str_encode(self if len(self._cv) else "", encoding, errors)

    def _native(self):
        return "".join(chr(e if type(e) is nint else _conc(code_it(e))) for e in self._cv)

    def _all(self, chars):
        return len(self._cv) > 0 and core.cur().branch(b_and(*[in_set(code_it(e), chars) for e in self._cv]))

    def isalnum(self):
        self._ascii()
        return self._all(ALNUM)

    def isalpha(self):
        self._ascii()
        return self._all(ALPHA)

    def isdigit(self):
        self._ascii()
        return self._all(DIGITS)

    isnumeric = isdigit
    isdecimal = isdigit

    def isspace(self):
        self._ascii()
        return self._all(WS)

    def isidentifier(self):
        self._ascii()
        return (
            len(self._cv) > 0
            and core.cur().branch(in_set(code_it(self._cv[0]), ALPHA + "_"))
            and core.cur().branch(b_and(*[in_set(code_it(e), ALNUM + "_") for e in self._cv]))
        )

    def _ascii(self):
        """The character classes above are modelled for ASCII; anything else is enumerated."""
        for e in self._cv:
            if type(e) is not nint and not core.cur().branch(b_lt(code_it(e), 128)):
                _conc(code_it(e))

    def _map(self, f):
        out = []
        for e in self._cv:
            if type(e) is nint:
                out.extend(map(ord, f(chr(e))))
            else:
                out.append(f(e))
        return mkstr(out)

    def lower(self):
        def f(c):
            if nisinstance(c, nstr):
                return c.lower()
            r = code_it(c)
            return simp_el(_c21(r_ite(b_and(b_le(65, r), b_le(r, 90)), core.op_add(r, 32), r)))

        self._ascii()
        return self._map(f)

    def upper(self):
        def f(c):
            if nisinstance(c, nstr):
                return c.upper()
            r = code_it(c)
            return simp_el(_c21(r_ite(b_and(b_le(97, r), b_le(r, 122)), core.op_sub(r, 32), r)))

        self._ascii()
        return self._map(f)

    def splitlines(self, keepends=False):
        out = []
        e = self._cv
        br = core.cur().branch
        last = i = 0
        nl = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
        while i < len(e):
            if br(in_set(code_it(e[i]), nl)):
                j = i + 1
                if j < len(e) and br(b_eq(code_it(e[i]), 13)) and br(b_eq(code_it(e[j]), 10)):
                    j += 1
                out.append(mkstr(e[last : j if keepends else i]))
                last = i = j
            else:
                i += 1
        if last < len(e):
            out.append(mkstr(e[last:]))
        return out

    def __str__(self):
        return mkstr(self._cv) if type(self) is SStr else mkstr(self._cv)

    def __repr__(self):
        if all(type(e) is nint for e in self._cv):
            return repr("".join(map(chr, self._cv)))
        return placeholder(self, "r")

    def __format__(self, spec):
        if all(type(e) is nint for e in self._cv):
            return format("".join(map(chr, self._cv)), spec)
        return placeholder(self, "s" + spec)

    def __getattr__(self, name):
        if name.startswith("_") or not hasattr(nstr, name):
            raise AttributeError(f"'{type(self).__name__}' object has no attribute '{name}'")
        return getattr(self._native(), name)


DIGITS = "0123456789"
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ALNUM = DIGITS + ALPHA
WS = "\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0"


def to_str(x):
    if type(x) is nstr:
        return x
    if type(x) is SStr:
        return x
    if nisinstance(x, SStr) and type(x).__str__ is SStr.__str__:
        return mkstr(x._cv)
    m = type(x).__str__
    r = m(x)
    return r


# --------------------------------------------------------------------------------------------------------------
# floats
# --------------------------------------------------------------------------------------------------------------

FSORT = {"e": z3.Float16(), "f": z3.Float32(), "d": z3.Float64()}
FBITS = {"e": 16, "f": 32, "d": 64}
FEXP = {"e": (5, 10), "f": (8, 23), "d": (11, 52)}


def f_nan(code, bits):
    e, m = FEXP[code]
    return z3.And(z3.Extract(m + e - 1, m, bits) == (1 << e) - 1, z3.Extract(m - 1, 0, bits) != 0)


def f_zero(code, bits):
    return z3.Extract(FBITS[code] - 2, 0, bits) == 0


class SFloat:
    """Stand-in for ``float``: a native float, or the value of a symbolic IEEE bit pattern of format e/f/d."""

    def __new__(cls, value=0.0):
        v = tofloat_raw(value)
        if cls is SFloat:
            return fwrap(v)
        o = object.__new__(cls)
        object.__setattr__(o, "_fv", v)
        return o

    def _sym(self):
        return type(self._fv) is tuple

    def concrete(self):
        if not self._sym():
            return self._fv
        import struct

        code, bits = self._fv
        v = _conc(mk(z3.ZeroExt(1, bits), 0, (1 << FBITS[code]) - 1))
        return struct.unpack("<" + code, v.to_bytes(FBITS[code] // 8, "little"))[0]

    @staticmethod
    def _eq(a, b):
        a, b = tofloat_raw(a), tofloat_raw(b)
        if type(a) is not tuple and type(b) is not tuple:
            return a == b
        if type(a) is not tuple:
            a, b = b, a
        code, x = a
        if type(b) is not tuple:
            import struct

            try:
                p = struct.pack("<" + code, b)
                if struct.unpack("<" + code, p)[0] != b:
                    return False
            except OverflowError:
                return False
            b = (code, z3.BitVecVal(nint.from_bytes(p, "little"), FBITS[code]))
        if b[0] == code:
            y = b[1]
            return wb(
                zb(z3.And(z3.Not(f_nan(code, x)), z3.Not(f_nan(code, y)), z3.Or(x == y, z3.And(f_zero(code, x), f_zero(code, y)))))
            )
        return wb(zb(z3.fpEQ(f64(a), f64(b))))

    def __eq__(self, o):
        if not (nisinstance(o, (nfloat, SFloat)) or raw(o) is not None):
            return NotImplemented
        return SFloat._eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else wb(b_not(cond(r)))

    def __bool__(self):
        if not self._sym():
            return nbool(self._fv)
        return not core.cur().branch(zb(f_zero(*self._fv)))

    def __hash__(self):
        return hash(self.concrete())

    def __float__(self):
        return self.concrete()

    def __int__(self):
        return nint(self.concrete())

    def __repr__(self):
        return placeholder(self, "") if self._sym() else repr(self._fv)

    __str__ = __repr__

    def __format__(self, spec):
        return placeholder(self, spec) if self._sym() else format(self._fv, spec)


def _fop(name):
    def f(self, *o):
        return getattr(self.concrete(), name)(*[x.concrete() if nisinstance(x, SFloat) else x for x in o])

    return f


for _n in "add sub mul truediv radd rsub rmul rtruediv neg abs lt le gt ge floordiv mod pow trunc round".split():
    setattr(SFloat, f"__{_n}__", _fop(f"__{_n}__"))


def f64(a):
    code, bits = a
    t = z3.fpBVToFP(bits, FSORT[code])
    return t if code == "d" else z3.fpFPToFP(z3.RNE(), t, FSORT["d"])


def fwrap(v):
    if type(v) is not tuple:
        return v
    o = object.__new__(SFloat)
    object.__setattr__(o, "_fv", v)
    return o


def tofloat_raw(x):
    if nisinstance(x, SFloat):
        return x._fv
    if nisinstance(x, SInt):
        return nfloat(SInt.__index__(x))
    if nisinstance(x, SStr):
        return nfloat(x._native())
    return nfloat(x)


def tofloat(x):
    return fwrap(tofloat_raw(x))


def is_symbolic(x):
    t = type(x)
    if t is nint or t is nstr or t is nbytes:
        return False
    if nisinstance(x, SInt):
        return type(x._sv) is not nint
    if nisinstance(x, (SBytes, SStr)):
        return any(type(e) is not nint for e in x._e())
    if nisinstance(x, SFloat):
        return x._sym()
    return t is SBool


STANDINS = {SInt: nint, SBytes: nbytes, SStr: nstr, SFloat: nfloat, SByteArray: nbytearray, SMemoryView: nmemoryview}
builtins_isinstance = builtins.isinstance


def is_int(v):
    """An integer, its stand-in, or an instance of a subclass of either."""
    return nisinstance(v, (nint, SInt))
