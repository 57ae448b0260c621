"""Symbolic stand-ins for io, struct, re and the builtin functions."""

from __future__ import annotations

import ast as _ast
import binascii as _binascii
import builtins as nb
import copy as _copy
import io as _io
import re as _re
import string as _string
import struct as _struct
import types as _types

import z3

from . import core
from .core import b_and, b_eq, b_le, b_lt, b_not, b_or, byte_it, code_it, ext, mk, r_from_els, r_ite, r_to_els, rng, simp_el, zb
from .values import (
    FBITS,
    FEXP,
    PH_CLOSE,
    PH_OPEN,
    SBool,
    SBytes,
    SByteArray,
    SFloat,
    SInt,
    SMemoryView,
    SStr,
    STANDINS,
    _conc,
    bytes_els,
    cond,
    els_eq,
    f_nan,
    f_zero,
    fwrap,
    hex_digits,
    in_set,
    is_byteslike,
    is_symbolic,
    mkbytes,
    mkstr,
    placeholder,
    raw,
    str_els,
    tofloat_raw,
    wb,
    wrap,
)

SSIZE_MAX = (1 << 63) - 1

for _c in (SInt, SBytes, SStr, SFloat, SBool):
    _copy._deepcopy_dispatch[_c] = lambda x, memo: x
    _copy._copy_dispatch[_c] = lambda x: x


def br(c):
    return core.cur().branch(c)


def index(x):
    """Raw integer of an index-like object."""
    r = raw(x)
    if r is None:
        r = x.__index__()
    return r


# --------------------------------------------------------------------------------------------------------------
# io
# --------------------------------------------------------------------------------------------------------------


class SBytesIO:
    """Stand-in for ``io.BytesIO``: the position may be symbolic, contents have a concrete length."""

    def __init__(self, initial_bytes=b""):
        self._b = list(bytes_els(initial_bytes)) if initial_bytes is not None else []
        self._p = 0
        self._closed = False

    def _chk(self):
        if self._closed:
            raise ValueError("I/O operation on closed file.")

    def _cpos(self):
        """Concrete position, or None when it is at/after the end."""
        p = self._p
        n = len(self._b)
        if type(p) is int:
            return p if p < n else None
        if br(b_le(n, p)):
            return None
        v = _conc(p)
        self._p = v
        return v

    def read(self, size=-1, /):
        self._chk()
        n = -1 if size is None else index(size)
        p = self._cpos()
        if p is None:
            if type(n) is not int and rng(n)[1] > SSIZE_MAX and br(b_lt(SSIZE_MAX, n)):
                raise OverflowError("cannot fit 'int' into an index-sized integer")
            return b""
        rem = len(self._b) - p
        if type(n) is not int:
            if rng(n)[1] > SSIZE_MAX and br(b_lt(SSIZE_MAX, n)):
                raise OverflowError("cannot fit 'int' into an index-sized integer")
            if br(b_or(b_lt(n, 0), b_le(rem, n))):
                n = rem
            else:
                n = _conc(n)
        if n > SSIZE_MAX or n < -SSIZE_MAX - 1:
            raise OverflowError("cannot fit 'int' into an index-sized integer")
        if n < 0 or n > rem:
            n = rem
        self._p = p + n
        return mkbytes(self._b[p : p + n])

    read1 = read

    def peek(self, n=0):
        p = self._p
        r = self.read(-1)
        self._p = p
        return r

    def readinto(self, buf):
        d = bytes_els(self.read(len(buf)))
        for i, e in enumerate(d):
            buf[i] = wrap(byte_it(e))
        return len(d)

    def readline(self, size=-1):
        out = []
        while True:
            c = self.read(1)
            if len(c) == 0:
                break
            out.append(c)
            if nb.bool(c == b"\n"):
                break
        return mkbytes(sum((tuple(bytes_els(c)) for c in out), ()))

    def seek(self, pos, whence=0, /):
        self._chk()
        r = index(pos)
        w = nb.int(whence) if type(whence) is not int else whence
        if type(r) is int:
            if not -SSIZE_MAX - 1 <= r <= SSIZE_MAX:
                raise OverflowError("cannot fit 'int' into an index-sized integer")
        elif rng(r)[1] > SSIZE_MAX or rng(r)[0] < -SSIZE_MAX - 1:
            if br(b_or(b_lt(SSIZE_MAX, r), b_lt(r, -SSIZE_MAX - 1))):
                raise OverflowError("cannot fit 'int' into an index-sized integer")
        if w == 0:
            if br(b_lt(r, 0)):
                raise ValueError(f"negative seek value {pos}")
            self._p = r if type(r) is int else mk(ext(r, core.wof(0, r.hi)), 0, min(r.hi, SSIZE_MAX)) if r.lo < 0 or r.hi > SSIZE_MAX else r
            return wrap(self._p)
        if w not in (1, 2):
            raise ValueError(f"invalid whence ({w}, should be 0, 1 or 2)")
        base = self._p if w == 1 else len(self._b)
        q = core.op_add(base, r)
        if br(b_lt(q, 0)):
            q = 0
        elif type(q) is not int and q.lo < 0:
            q = mk(ext(q, core.wof(0, q.hi)), 0, q.hi)
        self._p = q
        return wrap(q)

    def tell(self):
        self._chk()
        return wrap(self._p)

    def write(self, data, /):
        self._chk()
        if not is_byteslike(data):
            raise TypeError(f"a bytes-like object is required, not '{type(data).__name__}'")
        e = list(bytes_els(data))
        if not e:
            return 0
        p = self._p
        if type(p) is not int:
            p = self._p = _conc(p)
        if p > len(self._b):
            if p > (1 << 24):
                raise MemoryError
            self._b.extend([0] * (p - len(self._b)))
        self._b[p : p + len(e)] = e
        self._p = p + len(e)
        return len(e)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def truncate(self, size=None):
        n = nb.int(index(size if size is not None else self._p)) if type(index(size if size is not None else self._p)) is int else _conc(index(size if size is not None else self._p))
        del self._b[n:]
        return n

    def getvalue(self):
        return mkbytes(self._b)

    def getbuffer(self):
        return SMemoryView(mkbytes(self._b))

    def seekable(self):
        return True

    readable = writable = seekable

    def flush(self):
        pass

    def close(self):
        self._closed = True

    @property
    def closed(self):
        return self._closed

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        while True:
            x = self.readline()
            if not len(x):
                return
            yield x


class SStringIO:
    def __init__(self, s="", newline="\n"):
        self._parts = [s] if len(s) else []

    def write(self, s):
        self._parts.append(s)
        return len(s)

    def getvalue(self):
        return cat(self._parts)


def make_io():
    m = _types.ModuleType("io")
    m.__dict__.update({k: v for k, v in vars(_io).items() if not k.startswith("__")})
    m.BytesIO = SBytesIO
    m.StringIO = SStringIO
    return m


# --------------------------------------------------------------------------------------------------------------
# struct
# --------------------------------------------------------------------------------------------------------------

STD = dict(b=1, B=1, h=2, H=2, i=4, I=4, l=4, L=4, q=8, Q=8, e=2, f=4, d=8, x=1, c=1, s=1, p=1)
STD["?"] = 1
NAT = dict(STD, l=8, L=8, n=8, N=8, P=8)
_ph = _re.compile(f"{PH_OPEN}(\\d+){PH_CLOSE}")
SError = _struct.error


class _Fmt:
    def __init__(self, fmt):
        if isinstance(fmt, (bytes, SBytes)):
            fmt = fmt.decode("ascii")
        if isinstance(fmt, SStr):
            fmt = fmt._native()
        self.text = fmt
        s = fmt
        self.native = True
        big = __import__("sys").byteorder == "big"
        if s and s[0] in "@=<>!":
            self.native = s[0] == "@"
            if s[0] in "<":
                big = False
            elif s[0] in ">!":
                big = True
            s = s[1:]
        self.big = big
        self.plain = PH_OPEN not in s
        if self.plain:
            _struct.calcsize(fmt)  # validates
        self.items = []  # (count raw, code)
        i = 0
        sizes = NAT if self.native else STD
        while i < len(s):
            c = s[i]
            if c.isspace():
                i += 1
                continue
            count = 1
            if c == PH_OPEN:
                m = _ph.match(s, i)
                v, _ = core.cur().placeholders[nb.int(m.group(1))]
                count = raw(v)
                i = m.end()
                if br(b_lt(count, 0)):
                    raise SError("bad char in struct format")
            elif c.isdigit():
                j = i
                while j < len(s) and s[j].isdigit():
                    j += 1
                count = nb.int(s[i:j])
                i = j
            if i >= len(s):
                raise SError("repeat count given without format specifier")
            code = s[i]
            if code not in sizes:
                raise SError("bad char in struct format")
            self.items.append((count, code))
            i += 1
        self.sizes = sizes

    def total(self):
        """Raw size."""
        off = 0
        for count, code in self.items:
            sz = self.sizes[code]
            if self.native and code not in "xcspbB?" and type(off) is int:
                off += -off % sz
            off = core.op_add(off, core.op_mul(count, sz))
        return off

    def resolve(self, want):
        """The format's items with concrete counts, given that its total size must equal ``want`` (else None)."""
        syms = [k for k, (c, _) in enumerate(self.items) if type(c) is not int]
        if not syms:
            return self.items if nb.int(self.total()) == want else None
        if not br(b_eq(self.total(), want)):
            return None
        items = list(self.items)
        if len(syms) == 1 and not self.native:
            k = syms[0]
            rest = sum(c * self.sizes[x] for j, (c, x) in enumerate(items) if j != k)
            items[k] = ((want - rest) // self.sizes[items[k][1]], items[k][1])
        else:
            for k in syms:
                items[k] = (_conc(items[k][0]), items[k][1])
        return items


def _unpack_el(code, els, big):
    """One value from its byte elements (in stream order)."""
    if all(type(e) is int for e in els):
        return _struct.unpack((">" if big else "<") + ("q" if code in "n" else "Q" if code in "NP" else {"l": "i", "L": "I"}.get(code, code) if len(els) == 4 else {"l": "q", "L": "Q"}.get(code, code)), nb.bytes(els))[0]
    m = list(els) if big else list(els)[::-1]
    if code in "bhilqn":
        return wrap(r_from_els(m, True))
    if code in "BHILQNP":
        return wrap(r_from_els(m, False))
    if code == "?":
        return wb(b_not(b_eq(byte_it(m[0]), 0)))
    if code in "efd":
        bits = z3.simplify(z3.Concat(*[z3.BitVecVal(e, 8) if type(e) is int else e for e in m]))
        return fwrap((code, quiet(code, bits)))
    raise SError("unsupported " + code)


def quiet(code, bits):
    """What a decoded NaN's bit pattern becomes once it is encoded again (measured on the running interpreter)."""
    e, m = FEXP[code]
    rule = NAN_RULE[code]
    if rule == "keep":
        return bits
    n = f_nan(code, bits)
    if rule == "quiet":
        return z3.simplify(z3.If(n, bits | (1 << (m - 1)), bits))
    sign = z3.Extract(m + e, m + e, bits)
    canon = z3.Concat(sign, z3.BitVecVal((((1 << e) - 1) << m) | (1 << (m - 1)), m + e))
    return z3.simplify(z3.If(n, canon, bits))


def _measure_nan():
    out = {}
    for code in "efd":
        e, m = FEXP[code]
        snan = (((1 << e) - 1) << m) | 1
        n = FBITS[code] // 8
        back = nb.int.from_bytes(_struct.pack("<" + code, _struct.unpack("<" + code, snan.to_bytes(n, "little"))[0]), "little")
        out[code] = "keep" if back == snan else "quiet" if back == snan | (1 << (m - 1)) else "canon"
    return out


NAN_RULE = _measure_nan()
LIM = {c: (-(1 << (8 * s - 1)), (1 << (8 * s - 1)) - 1) for c, s in (("b", 1), ("h", 2), ("i", 4), ("q", 8))}
LIM.update({c: (0, (1 << (8 * s)) - 1) for c, s in (("B", 1), ("H", 2), ("I", 4), ("Q", 8))})


def _pack_el(code, size, v, big):
    if code in "bBhHiIlLqQnNP":
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if code in "bhilqn" else (0, (1 << 8 * size) - 1)
        r = raw(v)
        if r is None:
            ix = getattr(type(v), "__index__", None)
            if ix is None:
                raise SError("required argument is not an integer")
            r = raw(ix(v))
        if not br(b_and(b_le(lo, r), b_le(r, hi))):
            raise SError(f"'{code}' format requires {lo} <= number <= {hi}")
        els = r_to_els(r, size)
        return els if big else els[::-1]
    if code == "?":
        return [1 if nb.bool(v) else 0]
    if code in "efd":
        if raw(v) is None and not nb.isinstance(v, (nb.float, SFloat)) and not hasattr(type(v), "__float__"):
            raise SError("required argument is not a float")
        f = tofloat_raw(v)
        if type(f) is tuple and f[0] == code:
            n = FBITS[code] // 8
            els = [simp_el(z3.Extract(8 * i + 7, 8 * i, f[1])) for i in range(n)]
            return els[::-1] if big else els
        if type(f) is tuple:
            f = SFloat(v).concrete()
        return list(_struct.pack((">" if big else "<") + code, f))
    raise SError("unsupported " + code)


class SStruct:
    def __init__(self, fmt):
        self._f = _Fmt(fmt)

    @property
    def format(self):
        return self._f.text

    @property
    def size(self):
        return wrap(self._f.total())

    def unpack(self, data, /):
        e = bytes_els(data)
        f = self._f
        items = f.resolve(len(e))
        if items is None:
            raise SError(f"unpack requires a buffer of {f.text} bytes")
        return nb.tuple(self._vals(items, e, 0))

    def _vals(self, items, e, off):
        f = self._f
        base = off
        for count, code in items:
            sz = f.sizes[code]
            if f.native and code not in "xcspbB?":
                off += -(off - base) % sz
            if code == "x":
                off += count
            elif code == "s":
                yield mkbytes(e[off : off + count])
                off += count
            elif code == "p":
                yield SBytes._native(SByteArray(mkbytes(e[off + 1 : off + count]))._sb())
                off += count
            elif code == "c":
                for _ in range(count):
                    yield mkbytes(e[off : off + 1])
                    off += 1
            else:
                for _ in range(count):
                    yield _unpack_el(code, e[off : off + sz], f.big)
                    off += sz

    def unpack_from(self, data, offset=0):
        e = bytes_els(data)
        o = nb.int(index(offset)) if type(index(offset)) is int else _conc(index(offset))
        if o < 0:
            o += len(e)
        n = self._f.total()
        n = n if type(n) is int else _conc(n)
        if o < 0 or len(e) - o < n:
            raise SError("unpack_from requires a larger buffer")
        return nb.tuple(self._vals(self._f.resolve(n), e, o))

    def iter_unpack(self, data):
        e = bytes_els(data)
        n = self._f.total()
        n = n if type(n) is int else _conc(n)
        if n == 0 or len(e) % n:
            raise SError("iterative unpacking requires a buffer of a multiple of the size")
        items = self._f.resolve(n)
        for i in range(0, len(e), n):
            yield nb.tuple(self._vals(items, e[i : i + n], 0))

    def pack(self, *args):
        f = self._f
        syms = [k for k, (c, _) in enumerate(f.items) if type(c) is not int]
        items = list(f.items)
        if len(syms) == 1 and items[syms[0]][1] not in "xsp":
            k = syms[0]
            rest = sum(0 if x == "x" else 1 if x in "sp" else c for j, (c, x) in enumerate(items) if j != k)
            if not br(b_eq(core.op_add(items[k][0], rest), len(args))):
                raise SError("pack expected a different number of items")
            items[k] = (len(args) - rest, items[k][1])
        else:
            for k in syms:
                items[k] = (_conc(items[k][0]), items[k][1])
        need = sum(0 if x == "x" else 1 if x in "sp" else c for c, x in items)
        if need != len(args):
            raise SError(f"pack expected {need} items for packing (got {len(args)})")
        out = []
        it = iter(args)
        for count, code in items:
            sz = f.sizes[code]
            if f.native and code not in "xcspbB?":
                out.extend([0] * (-len(out) % sz))
            if code == "x":
                out.extend([0] * count)
            elif code == "s":
                v = next(it)
                if not is_byteslike(v):
                    raise SError("argument for 's' must be a bytes object")
                b = list(bytes_els(v))[:count]
                out.extend(b + [0] * (count - len(b)))
            elif code == "p":
                out.extend(_struct.pack(f"{count}p", nb.bytes(next(it))))
            elif code == "c":
                for _ in range(count):
                    v = next(it)
                    if not is_byteslike(v) or len(v) != 1:
                        raise SError("char format requires a bytes object of length 1")
                    out.extend(bytes_els(v))
            else:
                for _ in range(count):
                    out.extend(_pack_el(code, sz, next(it), f.big))
        return mkbytes(out)

    def pack_into(self, buf, offset, *args):
        for i, e in enumerate(bytes_els(self.pack(*args))):
            buf[offset + i] = wrap(byte_it(e))


def make_struct():
    m = _types.ModuleType("struct")
    m.error = SError
    m.Struct = SStruct
    m.calcsize = lambda fmt: SStruct(fmt).size
    m.pack = lambda fmt, *a: SStruct(fmt).pack(*a)
    m.unpack = lambda fmt, d: SStruct(fmt).unpack(d)
    m.unpack_from = lambda fmt, d, offset=0: SStruct(fmt).unpack_from(d, offset)
    m.iter_unpack = lambda fmt, d: SStruct(fmt).iter_unpack(d)
    m.pack_into = lambda fmt, b, o, *a: SStruct(fmt).pack_into(b, o, *a)
    return m


def make_ast():
    """Python literals are parsed natively: symbolic characters take one value per path."""
    m = _types.ModuleType("ast")
    m.__dict__.update({k: v for k, v in vars(_ast).items() if not k.startswith("__")})

    def literal_eval(source):
        if nb.isinstance(source, SStr):
            source = "".join(nb.chr(e if type(e) is nb.int else _index(wrap(code_it(e)))) for e in str_els(source))
        return _ast.literal_eval(source)

    def _index(v):
        return v if type(v) is nb.int else v.__index__()

    m.literal_eval = literal_eval
    return m


def make_binascii():
    m = _types.ModuleType("binascii")
    m.__dict__.update({k: v for k, v in vars(_binascii).items() if not k.startswith("__")})

    def hexlify(data, *a):
        if a or all(type(e) is int for e in bytes_els(data)):
            return _binascii.hexlify(nb.bytes(bytes_els(data)) if not a else data, *a)
        return SBytes.hex(SByteArray(data)._sb()).encode("ascii")

    m.hexlify = m.b2a_hex = hexlify
    return m


# --------------------------------------------------------------------------------------------------------------
# re
# --------------------------------------------------------------------------------------------------------------

_P = _re._parser
_C = _re._constants


class SMatch:
    def __init__(self, pat, string, groups):
        self.re = pat
        self.string = string
        self._g = groups  # index -> (start, end)
        self.pos = 0
        self.endpos = len(string)

    def _ix(self, g):
        if isinstance(g, nb.str):
            return self.re.groupindex[g]
        return nb.int(g)

    def span(self, g=0):
        return self._g.get(self._ix(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _get(self, g, default=None):
        s, e = self.span(g)
        return default if s < 0 else self.string[s:e]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return nb.tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return nb.tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(i, default) for k, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        best = None
        for i, (s, e) in self._g.items():
            if i and (best is None or e >= self._g[best][1]):
                best = i
        return best

    @property
    def lastgroup(self):
        li = self.lastindex
        for k, i in self.re.groupindex.items():
            if i == li:
                return k
        return None

    def expand(self, template):
        return self.re._expand(self, template)


class _Matcher:
    """Backtracking matcher over a text with symbolic characters; every character test may fork."""

    def __init__(self, els, flags, is_bytes):
        self.els = els
        self.n = len(els)
        self.flags = flags
        self.it = byte_it if is_bytes else code_it
        self.ascii = is_bytes or flags & _re.ASCII

    def test(self, c):
        return br(c) if type(c) is not nb.bool else c

    def cls(self, av, i):
        r = self.it(self.els[i])
        neg = False
        out = []
        for op, a in av:
            if op is _C.NEGATE:
                neg = True
            elif op is _C.LITERAL:
                out.append(self.lit(r, a))
            elif op is _C.RANGE:
                out.append(b_and(b_le(a[0], r), b_le(r, a[1])))
                if self.flags & _re.IGNORECASE:
                    for k in range(a[0], a[1] + 1):
                        out.append(self.lit(r, k))
            elif op is _C.CATEGORY:
                out.append(self.cat(r, a))
            else:
                raise core.Gap(str(op))
        c = b_or(*out)
        return b_not(c) if neg else c

    def lit(self, r, k):
        if self.flags & _re.IGNORECASE:
            return b_or(*{b_eq(r, ord(x)) if True else 0 for x in {chr(k).lower(), chr(k).upper()} if len(x) == 1})
        return b_eq(r, k)

    CATS = {}

    def cat(self, r, a):
        name = nb.str(a)
        if type(r) is int:
            pat = {"DIGIT": r"\d", "SPACE": r"\s", "WORD": r"\w"}[name.split("_")[-1]]
            hit = _re.match(pat, chr(r), _re.ASCII if self.ascii else 0) is not None
        else:
            kind = name.split("_")[-1]
            key = (kind, nb.bool(self.ascii))
            if key not in self.CATS:
                pat = _re.compile({"DIGIT": r"\d", "SPACE": r"\s", "WORD": r"\w"}[kind], _re.ASCII if self.ascii else 0)
                self.CATS[key] = nb.set(chr(k) for k in range(0x250) if pat.match(chr(k)))
            hit = in_set(r, self.CATS[key])
        return b_not(hit) if "NOT" in name else hit

    def run(self, pat, i, k, g):
        """Match the parsed pattern (list) from i; k(i, groups) is the continuation; returns its first non-None."""
        return self.seq(pat, 0, i, k, g)

    def seq(self, pat, j, i, k, g):
        while j < len(pat):
            op, av = pat[j]
            if op is _C.LITERAL:
                if i >= self.n or not self.test(self.lit(self.it(self.els[i]), av)):
                    return None
                i += 1
            elif op is _C.NOT_LITERAL:
                if i >= self.n or not self.test(b_not(self.lit(self.it(self.els[i]), av))):
                    return None
                i += 1
            elif op is _C.ANY:
                if i >= self.n or (not self.flags & _re.DOTALL and self.test(b_eq(self.it(self.els[i]), 10))):
                    return None
                i += 1
            elif op is _C.IN:
                if i >= self.n or not self.test(self.cls(av, i)):
                    return None
                i += 1
            elif op is _C.AT:
                if not self.at(av, i):
                    return None
            elif op is _C.SUBPATTERN:
                gi, add, dele, sub = av
                rest = lambda i2, g2, j=j, i0=i: self.seq(pat, j + 1, i2, k, ({**g2, gi: (i0, i2)} if gi is not None else g2))
                return self.seq(sub.data, 0, i, rest, g)
            elif op is _C.BRANCH:
                rest = lambda i2, g2, j=j: self.seq(pat, j + 1, i2, k, g2)
                for alt in av[1]:
                    r = self.seq(alt.data, 0, i, rest, g)
                    if r is not None:
                        return r
                return None
            elif op in (_C.MAX_REPEAT, _C.MIN_REPEAT, _C.POSSESSIVE_REPEAT):
                lo, hi, sub = av
                hi = self.n + 1 if hi is _C.MAXREPEAT else hi
                rest = lambda i2, g2, j=j: self.seq(pat, j + 1, i2, k, g2)
                single = len(sub.data) == 1 and sub.data[0][0] in (_C.LITERAL, _C.NOT_LITERAL, _C.ANY, _C.IN)
                if single and op is not _C.MIN_REPEAT:
                    e = i
                    while e - i < hi and e < self.n:
                        if self.seq(sub.data, 0, e, lambda i2, g2: i2, g) is None:
                            break
                        e += 1
                    if op is _C.POSSESSIVE_REPEAT:
                        return rest(e, g) if e - i >= lo else None
                    while e - i >= lo:
                        r = rest(e, g)
                        if r is not None:
                            return r
                        e -= 1
                    return None
                return self.rep(sub.data, lo, hi, op is _C.MIN_REPEAT, 0, i, rest, g)
            elif op in (_C.ASSERT, _C.ASSERT_NOT):
                d, sub = av
                if d < 0:
                    w = sub.getwidth()[0]
                    hit = None
                    if i - w >= 0:
                        hit = self.seq(sub.data, 0, i - w, lambda i2, g2: (i2, g2) if i2 == i else None, g)
                else:
                    hit = self.seq(sub.data, 0, i, lambda i2, g2: (i2, g2), g)
                if (hit is None) != (op is _C.ASSERT_NOT):
                    return None
                if hit is not None:
                    g = hit[1]
            elif op is _C.GROUPREF:
                if av not in g:
                    return None
                s, e = g[av]
                if i + e - s > self.n or not self.test(els_eq(self.els[s:e], self.els[i : i + e - s])):
                    return None
                i += e - s
            elif op is _C.ATOMIC_GROUP:
                hit = self.seq(av.data, 0, i, lambda i2, g2: (i2, g2), g)
                if hit is None:
                    return None
                i, g = hit
            else:
                raise core.Gap(nb.str(op))
            j += 1
        return k(i, g)

    def rep(self, sub, lo, hi, lazy, c, i, rest, g):
        def more():
            if c >= hi:
                return None
            return self.seq(sub, 0, i, lambda i2, g2: None if i2 == i and c >= lo else self.rep(sub, lo, hi, lazy, c + 1, i2, rest, g2), g)

        if c < lo:
            return more()
        if lazy:
            r = rest(i, g)
            return r if r is not None else more()
        r = more()
        return r if r is not None else rest(i, g)

    def word(self, i):
        return 0 <= i < self.n and self.test(self.cat(self.it(self.els[i]), "CATEGORY_WORD"))

    def at(self, av, i):
        nl = lambda x: self.test(b_eq(self.it(self.els[x]), 10))
        s = nb.str(av)
        if s == "AT_BEGINNING":
            return i == 0 or (self.flags & _re.MULTILINE and nl(i - 1))
        if s == "AT_BEGINNING_STRING":
            return i == 0
        if s == "AT_END":
            if self.flags & _re.MULTILINE:
                return i == self.n or nl(i)
            return i == self.n or (i == self.n - 1 and nl(i))
        if s == "AT_END_STRING":
            return i == self.n
        if s in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
            return (self.word(i - 1) != self.word(i)) == (s == "AT_BOUNDARY")
        raise core.Gap(s)


def _text(s):
    """(elements, is_bytes) when ``s`` holds symbolic characters, else None."""
    if isinstance(s, SStr):
        return s._cv, False
    if isinstance(s, SBytes):
        return s._bv, True
    return None


def _nat(s):
    """A stand-in without symbolic characters as its native value."""
    if isinstance(s, (SStr, SBytes)) and not is_symbolic(s):
        return s._native()
    return s


class SPattern:
    def __init__(self, pattern, flags=0):
        self._n = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self._n.flags
        self.groups = self._n.groups
        self.groupindex = self._n.groupindex
        self._tree = None

    def __eq__(self, o):
        return isinstance(o, SPattern) and self._n == o._n

    def __hash__(self):
        return hash(self._n)

    def tree(self):
        if self._tree is None:
            self._tree = _P.parse(self.pattern, self._n.flags & ~_re.UNICODE if False else self._n.flags & ~_re.DEBUG).data
        return self._tree

    def _at(self, string, i, end=None, full=False):
        els, isb = _text(string)
        m = _Matcher(els if end is None else els[:end], self.flags, isb)
        k = (lambda i2, g2: (i2, g2) if i2 == m.n else None) if full else (lambda i2, g2: (i2, g2))
        r = m.run(self.tree(), i, k, {})
        if r is None:
            return None
        return SMatch(self, string, {0: (i, r[0]), **r[1]})

    def match(self, string, pos=0, endpos=None):
        string = _nat(string)
        if _text(string) is None:
            return self._n.match(string, pos, *(() if endpos is None else (endpos,)))
        return self._at(string, pos, endpos)

    def fullmatch(self, string, pos=0, endpos=None):
        string = _nat(string)
        if _text(string) is None:
            return self._n.fullmatch(string, pos, *(() if endpos is None else (endpos,)))
        return self._at(string, pos, endpos, full=True)

    def search(self, string, pos=0, endpos=None):
        string = _nat(string)
        if _text(string) is None:
            return self._n.search(string, pos, *(() if endpos is None else (endpos,)))
        for i in range(pos, len(string) + 1):
            m = self._at(string, i, endpos)
            if m is not None:
                return m
        return None

    def finditer(self, string, pos=0, endpos=None):
        string = _nat(string)
        if _text(string) is None:
            yield from self._n.finditer(string, pos, *(() if endpos is None else (endpos,)))
            return
        i = pos
        last_empty = -1
        while i <= len(string):
            m = self._at(string, i, endpos)
            if m is None:
                i += 1
                continue
            s, e = m.span()
            if e == s and s == last_empty:
                i += 1
                continue
            yield m
            last_empty = e
            i = e if e > s else e + 1

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else "")
            else:
                out.append(m.groups(""))
        return out

    def _expand(self, m, repl):
        if callable(repl):
            return repl(m)
        if "\\" not in repl:
            return repl
        parsed = _P.parse_template(repl, self._n)
        out = []
        for p in parsed:
            out.append(m.group(p) or "" if isinstance(p, nb.int) else p)
        return cat(out)

    def subn(self, repl, string, count=0):
        string = _nat(string)
        if _text(string) is None:
            return self._n.subn(repl, string, count)
        parts = []
        last = 0
        n = 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            parts.append(string[last : m.start()])
            parts.append(self._expand(m, repl))
            last = m.end()
            n += 1
        parts.append(string[last:])
        return cat(parts), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        string = _nat(string)
        if _text(string) is None:
            return self._n.split(string, maxsplit)
        out = []
        last = 0
        n = 0
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            out.append(string[last : m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(string[last:])
        return out


_scanners = {}
_patterns = {}


def s_compile(pattern, flags=0):
    if isinstance(pattern, SPattern):
        return pattern
    pattern = _nat(pattern)
    if isinstance(pattern, _re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags
    k = (pattern, nb.int(flags))
    if k not in _patterns:
        _patterns[k] = SPattern(pattern, flags)
    return _patterns[k]


class SScanner:
    def __init__(self, lexicon, flags=0):
        self.lexicon = lexicon
        self.flags = flags
        self.match = None

    def scan(self, string):
        string = _nat(string)
        if _text(string) is None:
            key = (nb.tuple(p for p, _ in self.lexicon), nb.int(self.flags))
            if key not in _scanners:
                _scanners[key] = _re.Scanner(self.lexicon, self.flags)
            s = object.__new__(_re.Scanner)
            s.lexicon = self.lexicon
            s.scanner = _scanners[key].scanner
            return s.scan(string)
        pats = [s_compile(p, self.flags) for p, _ in self.lexicon]
        out = []
        i = 0
        while True:
            m = None
            for p, (_, action) in zip(pats, self.lexicon):
                m = p._at(string, i)
                if m is not None:
                    break
            if m is None or m.end() == i:
                break
            if callable(action):
                self.match = m
                action = action(self, m.group())
            if action is not None:
                out.append(action)
            i = m.end()
        return out, string[i:]


def make_re():
    m = _types.ModuleType("re")
    m.__dict__.update({k: v for k, v in vars(_re).items() if not k.startswith("__")})
    m.compile = s_compile
    m.Scanner = SScanner
    for n in ("match", "fullmatch", "search", "split", "findall", "finditer"):
        setattr(m, n, lambda p, s, *a, flags=0, _n=n, **k: getattr(s_compile(p, a[0] if a and _n != "split" else flags), _n)(s, *(a if _n == "split" else ()), **k))
    m.sub = lambda p, r, s, count=0, flags=0: s_compile(p, flags).sub(r, s, count)
    m.subn = lambda p, r, s, count=0, flags=0: s_compile(p, flags).subn(r, s, count)
    return m


# --------------------------------------------------------------------------------------------------------------
# builtin functions
# --------------------------------------------------------------------------------------------------------------

NATIVE_OF = STANDINS
STAND_OF = {v: k for k, v in STANDINS.items()}


def _expand_types(t):
    if type(t) is nb.tuple:
        return nb.tuple(x for y in t for x in _expand_types(y))
    if isinstance(t, _types.UnionType):
        return nb.tuple(x for y in t.__args__ for x in _expand_types(y))
    if t in NATIVE_OF:
        if t is SInt:
            return (SInt, nb.int, SBool)
        return (t, NATIVE_OF[t])
    if t in STAND_OF:
        return _expand_types(STAND_OF[t])
    if t is nb.bool:
        return (nb.bool, SBool)
    return (t,)


_iscache = {}


def s_isinstance(o, t):
    try:
        x = _iscache.get(t)
    except TypeError:
        x = None
    if x is None:
        x = _expand_types(t) if isinstance(t, (type, nb.tuple, _types.UnionType)) else t
        if isinstance(t, type) and t in NATIVE_OF:
            _iscache[t] = x
    return nb.isinstance(o, x)


def s_issubclass(c, t):
    return nb.issubclass(c, _expand_types(t) if isinstance(t, (type, nb.tuple, _types.UnionType)) else t)


def s_type(o):
    t = type(o)
    return STAND_OF.get(t, t)


def s_ord(x):
    if isinstance(x, SStr) and len(x) == 1:
        return wrap(code_it(x._cv[0]))
    if isinstance(x, SBytes) and len(x) == 1:
        return wrap(byte_it(x._bv[0]))
    if isinstance(x, (SStr, SBytes, SByteArray)):
        raise TypeError(f"ord() expected a character, but string of length {len(x)} found")
    return nb.ord(x)


def s_chr(x):
    r = index(x)
    if type(r) is int:
        return nb.chr(r)
    if not br(b_and(b_le(0, r), b_le(r, 0x10FFFF))):
        raise ValueError("chr() arg not in range(0x110000)")
    return mkstr([simp_el(z3.Extract(20, 0, ext(r, 22)))])


def s_hex(x):
    r = index(x)
    return nb.hex(r) if type(r) is int else placeholder(wrap(r), "#x")


def s_bin(x):
    r = index(x)
    return nb.bin(r) if type(r) is int else placeholder(wrap(r), "#b")


def s_oct(x):
    r = index(x)
    return nb.oct(r) if type(r) is int else placeholder(wrap(r), "#o")


def s_repr(x):
    t = type(x)
    if t.__repr__ is nb.list.__repr__:
        return cat([part for i, v in enumerate(x) for part in (", " if i else "[", s_repr(v))] + ["]" if len(x) else "[]"])
    return t.__repr__(x)


def make_pprint():
    """pprint with a stand-in for lists: what native pprint makes of the length of a placeholder is meaningless."""
    import pprint

    m = _types.ModuleType("pprint")
    m.__dict__.update({k: v for k, v in vars(pprint).items() if not k.startswith("__")})

    def pformat(o, *a, **k):
        if type(o).__repr__ is not nb.list.__repr__ or not any(map(symbolic_inside, o)):
            return pprint.pformat(o, *a, **k)
        if len(o) <= 12:
            return s_repr(o)
        return cat([part for i, v in enumerate(o) for part in (",\n " if i else "[", pformat(v))] + ["]"])

    m.pformat = pformat
    return m


def symbolic_inside(v):
    if isinstance(v, nb.list):
        return any(map(symbolic_inside, v))
    return is_symbolic(v) or not isinstance(v, (nb.int, nb.str, nb.bytes, nb.float, SInt, SBytes, SStr, SFloat))


def s_format(x, spec=""):
    return fmt1(x, spec)


def s_range(*a):
    rs = [index(x) for x in a]
    if all(type(r) is int for r in rs):
        return nb.range(*rs)
    lo, hi, st = (0, rs[0], 1) if len(rs) == 1 else (rs[0], rs[1], rs[2] if len(rs) > 2 else 1)
    if type(st) is not int or type(lo) is not int:
        return nb.range(*[_conc(r) if type(r) is not int else r for r in rs])
    return SRange(lo, hi, st)


class SRange:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def __iter__(self):
        i = self.lo
        while br(b_lt(i, self.hi) if self.st > 0 else b_lt(self.hi, i)):
            yield i
            i += self.st

    def _c(self):
        return nb.range(self.lo, _conc(self.hi), self.st)

    def __len__(self):
        return len(self._c())

    def __getitem__(self, i):
        return self._c()[i]

    def __reversed__(self):
        return reversed(self._c())

    def __contains__(self, x):
        return x in self._c()


def _truth(x):
    """Truth value of ``x`` as a condition, without forking where the type's own truth test is a stand-in's."""
    t = type(x)
    if t is nb.bool:
        return x
    if t is SBool:
        return x.c
    f = getattr(t, "__bool__", None)
    if f is SInt.__bool__:
        return b_not(b_eq(raw(x), 0))
    return nb.bool(x)


def s_len(x, /):
    f = getattr(nb.type(x), "__len__", None)
    if nb.type(f) is _types.FunctionType:
        r = f(x)
        if raw(r) is not None and nb.type(raw(r)) is not nb.int:
            if br(b_lt(raw(r), 0)):
                raise ValueError("__len__() should return >= 0")
            return r
    return nb.len(x)


def s_any(it):
    out = []
    for x in it:
        c = _truth(x)
        if c is True:
            return True
        out.append(c)
    return br(b_or(*out))


def s_all(it):
    out = []
    for x in it:
        c = _truth(x)
        if c is False:
            return False
        out.append(c)
    return br(b_and(*out))


def _minmax(which):
    nat = getattr(nb, which)

    def f(*a, **k):
        if k:
            return nat(*a, **k)
        xs = nb.list(a[0]) if len(a) == 1 else nb.list(a)
        if xs and any(type(x) is SInt and type(x._sv) is not int for x in xs) and all(raw(x) is not None for x in xs):
            r = raw(xs[0])
            for x in xs[1:]:
                v = raw(x)
                r = r_ite(b_lt(r, v) if which == "max" else b_lt(v, r), v, r)
            return wrap(tighten(r, [raw(x) for x in xs], which))
        return nat(xs)

    return f


def tighten(r, rs, which):
    """max()/min() narrow the interval: the low end of a maximum is the largest low end."""
    if type(r) is int:
        return r
    los, his = [rng(x)[0] for x in rs], [rng(x)[1] for x in rs]
    lo, hi = (max(los), max(his)) if which == "max" else (min(los), min(his))
    return mk(ext(r, core.wof(r.lo, r.hi)), lo, hi) if (lo, hi) != (r.lo, r.hi) else r


class SHash(nb.int):
    """The result of hash(): an int that remembers the structure it was computed from."""

    def __new__(cls, key):
        o = nb.int.__new__(cls, nb.hash(_hnat(key)))
        o._key = key
        return o

    def __eq__(self, o):
        if isinstance(o, SHash):
            return wb(_hkeq(self._key, o._key))
        return nb.int(self) == o

    def __ne__(self, o):
        return wb(b_not(cond(self.__eq__(o))))

    def __hash__(self):
        return nb.int.__hash__(self)


def _hnat(key):
    if key[0] == "t":
        return nb.tuple(_hnat(k) for k in key[1])
    if key[0] == "i":
        return key[1] if type(key[1]) is int else 0
    if key[0] == "e":
        return 0 if any(type(x) is not int for x in key[2]) else nb.hash(key[1](key[2]))
    if key[0] == "f":
        return 0
    return key[1]


def _hkeq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "t":
        if len(a[1]) != len(b[1]):
            return False
        return b_and(*[_hkeq(x, y) for x, y in zip(a[1], b[1])])
    if a[0] == "i":
        return b_eq(a[1], b[1])
    if a[0] == "e":
        return a[1] is b[1] and els_eq(a[2], b[2])
    if a[0] == "f":
        return a[1] == b[1] and zb(a[2] == b[2])
    return a[1] == b[1]


def hkey(x):
    t = type(x)
    if t is nb.tuple:
        return ("t", [hkey(y) for y in x])
    if t is SHash:
        return x._key
    h = t.__hash__
    if h is None:
        raise TypeError(f"unhashable type: '{t.__name__}'")
    if h is SInt.__hash__ or t is nb.int or t is nb.bool or t is SBool:
        return ("i", raw(x))
    if h is SBytes.__hash__:
        return ("e", mkbytes, nb.tuple(x._e()))
    if h is SStr.__hash__:
        return ("e", mkstr, nb.tuple(x._e()))
    if t is nb.bytes:
        return ("e", mkbytes, nb.tuple(x))
    if t is nb.str:
        return ("e", mkstr, nb.tuple(map(nb.ord, x)))
    if h is SFloat.__hash__ and x._sym():
        code, bits = x._fv
        return ("f", code, z3.If(f_zero(code, bits), z3.BitVecVal(0, FBITS[code]), bits))
    r = h(x)
    return r._key if type(r) is SHash else ("o", r)


def s_hash(x):
    k = hkey(x)
    if k[0] == "o":
        return k[1]
    return SHash(k)


def s_getattr(o, name, *d):
    return nb.getattr(o, name._native() if isinstance(name, SStr) else name, *d)


def s_hasattr(o, name):
    return nb.hasattr(o, name._native() if isinstance(name, SStr) else name)


def s_setattr(o, name, v):
    return nb.setattr(o, name._native() if isinstance(name, SStr) else name, v)


def s_print(*a, **k):
    return nb.print(*[x._native() if isinstance(x, SStr) else x for x in a], **k)


# --------------------------------------------------------------------------------------------------------------
# text helpers
# --------------------------------------------------------------------------------------------------------------


def cat(parts):
    if all(type(p) is nb.str for p in parts):
        return "".join(parts)
    out = []
    for p in parts:
        out.extend(str_els(p))
    return mkstr(out)


def lift_str(s):
    o = object.__new__(SStr)
    object.__setattr__(o, "_cv", nb.tuple(map(nb.ord, s)))
    return o


def lift_bytes(b):
    o = object.__new__(SBytes)
    object.__setattr__(o, "_bv", nb.tuple(b))
    return o


_hexspec = _re.compile(r"(#?)(0?)(\d*)([xX])$")
_strspec = _re.compile(r"(?:(.)?([<>^]))?(\d*)s?$", _re.DOTALL)


def fmt1(x, spec):
    if isinstance(spec, SStr):
        spec = spec._native()
    t = type(x)
    if isinstance(x, SStr) and type(x).__format__ is SStr.__format__ and is_symbolic(x):
        if type(x).__str__ is not SStr.__str__:
            x = type(x).__str__(x)
        m = _strspec.match(spec)
        if m:
            e = str_els(x)
            w = nb.int(m.group(3) or 0)
            pad = w - len(e)
            fill = (nb.ord(m.group(1) or " "),)
            if pad > 0:
                al = m.group(2) or "<"
                left = pad if al == ">" else pad // 2 if al == "^" else 0
                e = fill * left + nb.tuple(e) + fill * (pad - left)
            return mkstr(e)
        return placeholder(x, spec)
    if isinstance(x, SInt) and type(x._sv) is not int:
        f = t.__format__
        if f is SInt.__format__:
            if spec == "":
                return t.__str__(x)
            m = _hexspec.match(spec)
            if m and m.group(2) and m.group(3):
                n = nb.int(m.group(3)) - (2 if m.group(1) else 0)
                lo, hi = rng(x._sv)
                if lo >= 0 and n > 0 and hi < 16**n:
                    pre = [nb.ord(c) for c in (("0" + m.group(4)) if m.group(1) else "")]
                    return mkstr(pre + hex_digits(x._sv, n, m.group(4) == "X"))
            return placeholder(x, spec)
        return f(x, spec)
    if t in (nb.int, nb.str, nb.float):
        return nb.format(x, spec)
    f = t.__format__
    if f is object.__format__ and spec == "":
        return s_repr(x) if t.__str__ is object.__str__ else t.__str__(x)
    return f(x, spec)


def vf_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is nb.str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = s_repr(v)
        elif conv == 115:
            v = SStr(v)
        elif conv == 97:
            v = nb.ascii(v)
        out.append(fmt1(v, spec))
    return cat(out)


def vf_format(template, args, kw):
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(template):
        out.append(lit)
        if field is None:
            continue
        first, rest = __import__("_string").formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        v = args[first] if isinstance(first, nb.int) else kw[first]
        for is_attr, n in rest:
            v = nb.getattr(v, n) if is_attr else v[n]
        if conv == "r":
            v = s_repr(v)
        elif conv == "s":
            v = SStr(v)
        if "{" in spec:
            spec = vf_format(spec, args[auto:], kw)
        out.append(fmt1(v, spec))
    return cat(out)


_pct = _re.compile(r"%(\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<w>\d*)(?:\.\d+)?(?P<c>[diouxXeEfFgGcrsa%])")


def vf_mod(a, b):
    """a % b where a may be a text template."""
    if not isinstance(a, (nb.str, SStr)) or isinstance(a, SInt):
        return a % b
    args = b if type(b) is nb.tuple else (b,)
    if not isinstance(a, nb.str) or not any(is_symbolic(x) or isinstance(x, (SStr, SBytes)) for x in (args if not isinstance(b, dict) else b.values())):
        return a % b
    out = []
    last = 0
    k = 0
    for m in _pct.finditer(a):
        out.append(a[last : m.start()])
        last = m.end()
        if m["c"] == "%":
            out.append("%")
            continue
        if m["key"] is not None:
            v = b[m["key"]]
        else:
            v = args[k]
            k += 1
        c = m["c"]
        if c == "s":
            out.append(fmt1(SStr(v), (">" if m["w"] and "-" not in m["flags"] else "") + m["w"]))
        elif c == "r":
            out.append(s_repr(v))
        elif c in "di":
            out.append(fmt1(v, m["flags"].replace("-", "<") + m["w"] + ("d" if m["flags"] or m["w"] else "")))
        elif c in "xXo":
            out.append(fmt1(v, m["flags"].replace("-", "<") + m["w"] + c))
        elif c == "c":
            out.append(s_chr(v) if raw(v) is not None else v)
        else:
            out.append(m.group() % v)
    out.append(a[last:])
    return cat(out)


# --------------------------------------------------------------------------------------------------------------
# transformed operations
# --------------------------------------------------------------------------------------------------------------


def _symkey(k):
    t = type(k)
    if t is nb.str or t is nb.int:
        return False
    if t is nb.tuple:
        return any(_symkey(x) for x in k)
    if isinstance(k, (SInt, SStr, SBytes)):
        return is_symbolic(k)
    return False


_MISS = object()


def _keyeq(a, b):
    """Equality of dict keys as a condition (forks inside when a class overrides __eq__)."""
    if type(a) is nb.tuple and type(b) is nb.tuple:
        return len(a) == len(b) and b_and(*[_keyeq(x, y) for x, y in zip(a, b)])
    sa, sb = raw(a), raw(b)
    if (sa is None) != (sb is None):
        return False
    r = a == b
    return cond(r) if type(r) in (nb.bool, SBool) else nb.bool(r)


def _lookup(d, k):
    ctx = core.cur()
    ov = ctx.overlay.get(id(d)) if ctx is not None else None
    if ov is not None:
        for kk, v in reversed(ov):
            if br(_keyeq(kk, k)):
                return v
    if _symkey(k):
        for kk in nb.list(d):
            if br(_keyeq(kk, k)):
                return d[kk]
        return _MISS
    try:
        return d[k]
    except KeyError:
        return _MISS


def _isdict(d):
    return isinstance(d, (nb.dict, _types.MappingProxyType))


def vf_get(d, k):
    if _isdict(d) and (_symkey(k) or (core.cur() is not None and id(d) in core.cur().overlay)):
        v = _lookup(d, k)
        if v is _MISS:
            m = getattr(type(d), "__missing__", None)
            if m is not None:
                return m(d, k)
            raise KeyError(k)
        return v
    if type(k) is SStr and not _isdict(d) and nb.isinstance(d, type):
        return d[k._native()]
    return d[k]


def vf_set(d, k, v):
    if isinstance(d, nb.dict) and _symkey(k):
        ctx = core.cur()
        # an existing concrete key that is equal is overwritten
        for kk in nb.list(d):
            if br(_keyeq(kk, k)):
                d[kk] = v
                return
        ov = ctx.overlay.setdefault(id(d), [])
        ctx.keep.append(d)
        for i, (kk, _) in enumerate(ov):
            if br(_keyeq(kk, k)):
                ov[i] = (kk, v)
                return
        ov.append((k, v))
        return
    d[k] = v


def vf_in(x, c):
    t = type(c)
    if t is nb.str:
        if isinstance(x, SStr):
            if len(x) == 1:
                return br(in_set(code_it(x._cv[0]), c)) if c else False
            return lift_str(c).__contains__(x)
        return x in c
    if _isdict(c):
        if _symkey(x) or (core.cur() is not None and id(c) in core.cur().overlay):
            return _lookup(c, x) is not _MISS
        return x in c
    if t in (nb.set, nb.frozenset) and _symkey(x):
        return br(b_or(*[_keyeq(y, x) for y in sorted(c, key=repr)]))
    if t is nb.bytes and (isinstance(x, (SBytes, SInt)) and is_symbolic(x)):
        return lift_bytes(c).__contains__(x)
    if t in (nb.range, SRange) and isinstance(x, SInt) and is_symbolic(x):
        r = c if t is nb.range else c._c()
        if r.step == 1:
            return br(b_and(b_le(r.start, raw(x)), b_lt(raw(x), r.stop)))
    if t in (type({}.keys()),) and _symkey(x):
        return br(b_or(*[_keyeq(y, x) for y in nb.list(c)]))
    return x in c


def vf_inl(x, c):
    """``x in c``, without a fork if it is about a single character or number."""
    if type(c) is nb.str and c and isinstance(x, SStr) and len(x) == 1:
        return wb(in_set(code_it(x._cv[0]), c))
    if type(c) in (nb.tuple, nb.list, nb.set, nb.frozenset, nb.range) and isinstance(x, SInt) and is_symbolic(x) and len(c) < 300 and all(type(y) is nb.int for y in c):
        return wb(b_or(*[b_eq(raw(x), y) for y in nb.list(c)])) if c else False
    return vf_in(x, c)


def vf_not(c):
    return wb(b_not(cond(c))) if isinstance(c, SBool) else not c


def vf_and(a, b):
    return wb(b_and(cond(a), cond(b))) if isinstance(a, SBool) and isinstance(b, SBool) else a and b


def vf_if(c, yes, no):
    """``yes() if c else no()``, without a fork if both are strings of the same length."""
    if isinstance(c, SBool):
        try:
            a, b = yes(), no()
        except (ValueError, TypeError, OverflowError, NameError):
            return yes() if c else no()
        if isinstance(a, (nb.str, SStr)) and isinstance(b, (nb.str, SStr)) and len(a) == len(b):
            return mkstr([e if e is f else z3.If(c.c, *(k if type(k) is not nb.int else z3.BitVecVal(k, 21) for k in (e, f))) for e, f in zip(str_els(a), str_els(b))])
        return a if c else b
    return yes() if c else no()


METHODS = {
    "join", "get", "setdefault", "pop", "format", "partition", "rpartition", "split", "rsplit", "find", "rfind",
    "index", "rindex", "count", "startswith", "endswith", "replace", "strip", "lstrip", "rstrip", "removeprefix",
    "removesuffix", "translate", "update", "from_bytes", "fromhex", "decode", "encode", "ljust", "rjust", "center",
    "add", "hex",
}  # fmt: skip


def vf_m(o, name, *a, **k):
    t = type(o)
    if t is nb.str:
        if name == "format":
            return vf_format(o, a, k)
        if name == "join":
            (it,) = a
            parts = nb.list(it)
            if any(isinstance(p, SStr) for p in parts):
                return SStr.join(lift_str(o), parts)
            return o.join(parts)
        if any(isinstance(x, SStr) for x in a):
            return getattr(lift_str(o), name)(*a, **k)
    elif t is nb.bytes:
        if name == "join":
            (it,) = a
            parts = nb.list(it)
            if any(not isinstance(p, nb.bytes) for p in parts):
                return SBytes.join(lift_bytes(o), parts)
            return o.join(parts)
        if any(isinstance(x, (SBytes, SInt)) for x in a):
            return getattr(lift_bytes(o), name)(*a, **k)
    elif _isdict(o) and name in ("get", "setdefault", "pop"):
        ctx = core.cur()
        if a and (_symkey(a[0]) or (ctx is not None and id(o) in ctx.overlay)):
            v = _lookup(o, a[0])
            if name == "get":
                return (a[1] if len(a) > 1 else None) if v is _MISS else v
            if name == "setdefault":
                if v is _MISS:
                    v = a[1] if len(a) > 1 else None
                    vf_set(o, a[0], v)
                return v
            if v is _MISS:
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            for kk in nb.list(o):
                if br(_keyeq(kk, a[0])):
                    del o[kk]
                    return v
            ov = ctx.overlay.get(id(o), [])
            ctx.overlay[id(o)] = [(kk, vv) for kk, vv in ov if vv is not v]
            return v
    return getattr(o, name)(*a, **k)


def vf_bool(x):
    return br(x.c) if type(x) is SBool else x
