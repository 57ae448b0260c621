"""Independent reference: declarations, C layout, and decoding of symbolic bytes.

Written from the property texts and C rules only; shares no code with the package.  Values are canonical forms
(see vse/canon.py) over raw integers and byte elements, so the same code runs on concrete and symbolic bytes.
"""

from __future__ import annotations

import z3

from vse.core import IT, b_and, b_eq, b_le, b_lt, b_not, b_or, byte_it, mk, op_add, op_and, op_mul, op_or, op_shl, op_shr, op_sub
from vse.core import r_from_els, r_ite, rng, simp_el


class RefEOF(Exception):
    """The input ends before a data-carrying byte."""


class RefError(Exception):
    """The value cannot be decoded (e.g. invalid UTF-16)."""


class Skip(Exception):
    """Outside what this reference models."""


class Cfg:
    def __init__(self, endian="<", align=False, ptr="uint64", compiled=False):
        self.endian, self.align, self.ptr, self.compiled = endian, align, ptr, compiled

    @property
    def big(self):
        return self.endian in (">", "!")


# name -> (bytes, signed, alignment)
INTS = {
    "int8": (1, True, 1),
    "uint8": (1, False, 1),
    "int16": (2, True, 2),
    "uint16": (2, False, 2),
    "int24": (3, True, 4),
    "uint24": (3, False, 4),
    "int32": (4, True, 4),
    "uint32": (4, False, 4),
    "int48": (6, True, 8),
    "uint48": (6, False, 8),
    "int64": (8, True, 8),
    "uint64": (8, False, 8),
    "int128": (16, True, 16),
    "uint128": (16, False, 16),
}
FLOATS = {"float16": ("e", 2), "float": ("f", 4), "double": ("d", 8)}


class Cur:
    """A read position over elements, remembering which bits carried data."""

    def __init__(self, env, els, pos=0):
        self.env = env
        self.els = list(els)
        self.pos = pos
        self.mask = {}
        self.hi = pos  # highest data byte + 1 needed so far
        self.pads = []
        self.leb = []  # (start, end) of LEB128 encodings read
        self.floats = []
        self.float_ends = []  # terminators of null-terminated float arrays
        self.sizes = None
        self.lone = False  # accept lone surrogates

    def take(self, n, mask=None):
        if self.pos + n > len(self.els):
            raise RefEOF
        r = self.els[self.pos : self.pos + n]
        for i in range(n):
            self.mask[self.pos + i] = self.mask.get(self.pos + i, 0) | (0xFF if mask is None else mask[i])
        self.pos += n
        return r

    def left(self):
        return max(0, len(self.els) - self.pos)


def dec_int(els, big, signed):
    return r_from_els(els if big else els[::-1], signed)


class Ty:
    name = None

    def size(self, cfg):
        raise NotImplementedError

    def align(self, cfg):
        raise NotImplementedError

    def read(self, cur, cfg, ctx):
        raise NotImplementedError

    def decls(self, out):
        """Add the definitions this type needs to ``out`` (ordered dict name -> text)."""

    def declare(self, var):
        return f"{self.name} {var}"

    def iszero(self, v):
        """Is the decoded value this type's zero (for null-terminated arrays)? -> condition"""
        raise Skip

    def default(self, cfg):
        raise Skip

    def readable(self):
        return True


class Int(Ty):
    def __init__(self, name, alias=None):
        self.base = name
        self.name = alias or name
        self.n, self.signed, self.al = INTS[name]

    def size(self, cfg):
        return self.n

    def align(self, cfg):
        return self.al

    def lim(self):
        b = 8 * self.n
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if self.signed else (0, (1 << b) - 1)

    def read(self, cur, cfg, ctx):
        return ("i", dec_int(cur.take(self.n), cfg.big, self.signed))

    def iszero(self, v):
        return b_eq(v[1], 0)

    def default(self, cfg):
        return ("i", 0)


class Float(Ty):
    def __init__(self, name):
        self.name = name
        self.code, self.n = FLOATS[name]

    def size(self, cfg):
        return self.n

    def align(self, cfg):
        return self.n

    def read(self, cur, cfg, ctx):
        start = cur.pos
        cur.big = cfg.big
        els = cur.take(self.n)
        if not cfg.big:
            els = els[::-1]
        cur.floats.append((start, self))
        bits = z3.simplify(z3.Concat(*[z3.BitVecVal(e, 8) if type(e) is int else e for e in els]))
        return ("f", self.code, bits)

    def iszero(self, v):
        from vse.core import zb
        from vse.values import f_zero

        return zb(f_zero(self.code, v[2]))

    def default(self, cfg):
        return ("f", self.code, z3.BitVecVal(0, 8 * self.n))


class Char(Ty):
    name = "char"

    def __init__(self, alias="char"):
        self.name = alias

    def size(self, cfg):
        return 1

    def align(self, cfg):
        return 1

    def read(self, cur, cfg, ctx):
        return ("b", tuple(cur.take(1)))

    def default(self, cfg):
        return ("b", (0,))


def utf16(cur, units):
    """Decode code units (raw 16-bit ints) with forks on surrogates; RefError for a lone one."""
    env = cur.env
    out = []
    i = 0
    while i < len(units):
        u = units[i]
        if env.branch(b_or(b_lt(u, 0xD800), b_lt(0xDFFF, u))):
            out.append(u)
            i += 1
            continue
        if env.branch(b_le(0xDC00, u)) or i + 1 >= len(units):
            if cur.lone:
                out.append(u)
                i += 1
                continue
            raise RefError("utf-16")
        v = units[i + 1]
        if not env.branch(b_and(b_le(0xDC00, v), b_le(v, 0xDFFF))):
            if cur.lone:
                out.append(u)
                i += 1
                continue
            raise RefError("utf-16")
        c = op_add(op_add(op_shl(op_and(u, 0x3FF), 10), op_and(v, 0x3FF)), 0x10000)
        out.append(c)
        i += 2
    return ("s", tuple(r_code(c) for c in out))


def r_code(c):
    if type(c) is int:
        return c
    from vse.core import ext

    return simp_el(ext(c, 21) if c.t.size() <= 21 else z3.Extract(20, 0, c.t))


class Wchar(Ty):
    name = "wchar"

    def size(self, cfg):
        return 2

    def align(self, cfg):
        return 2

    def read(self, cur, cfg, ctx):
        return utf16(cur, [dec_int(cur.take(2), cfg.big, False)])

    def default(self, cfg):
        return ("s", (0,))


class Leb(Ty):
    def __init__(self, signed):
        self.signed = signed
        self.name = "ileb128" if signed else "uleb128"

    def size(self, cfg):
        return None

    def align(self, cfg):
        return 1

    def read(self, cur, cfg, ctx):
        v, shift = 0, 0
        start = cur.pos
        while True:
            b = byte_it(cur.take(1)[0])
            v = op_or(v, op_shl(op_and(b, 0x7F), shift))
            shift += 7
            if not cur.env.branch(b_le(0x80, b)):
                break
        if self.signed:
            neg = b_not(b_eq(op_and(b, 0x40), 0))
            v = r_ite(neg, op_sub(v, 1 << shift), v)
        cur.leb.append((start, cur.pos, self.signed))
        return ("i", v)

    def iszero(self, v):
        return b_eq(v[1], 0)

    def default(self, cfg):
        return ("i", 0)


class Void(Ty):
    name = "void"

    def size(self, cfg):
        return 0

    def align(self, cfg):
        return 1

    def read(self, cur, cfg, ctx):
        return ("void",)

    def default(self, cfg):
        return ("void",)


class Enum(Ty):
    """``kind`` is enum or flag."""

    def __init__(self, name, base, members, kind="enum"):
        self.name, self.base, self.members, self.kind = name, Int(base), members, kind

    def decls(self, out):
        out.setdefault(self.name, f"{self.kind} {self.name} : {self.base.name} {{ {', '.join(f'{k} = {v}' for k, v in self.members)} }};")

    def size(self, cfg):
        return self.base.n

    def align(self, cfg):
        return self.base.al

    def read(self, cur, cfg, ctx):
        return ("e", self.name, self.base.read(cur, cfg, ctx)[1])

    def iszero(self, v):
        return b_eq(v[2], 0)

    def default(self, cfg):
        return ("e", self.name, 0)


class Ptr(Ty):
    def __init__(self, target):
        self.target = target

    def decls(self, out):
        self.target.decls(out)

    def declare(self, var):
        return self.target.declare(f"*{var}")

    def size(self, cfg):
        return INTS[cfg.ptr][0]

    def align(self, cfg):
        return INTS[cfg.ptr][2]

    def read(self, cur, cfg, ctx):
        n, signed, _ = INTS[cfg.ptr]
        return ("p", dec_int(cur.take(n), cfg.big, signed))

    def iszero(self, v):
        return b_eq(v[1], 0)

    def default(self, cfg):
        return ("p", 0)


NULL, EOF = "null", "eof"


class Arr(Ty):
    """``n``: int, NULL, EOF, or (text, function of the context giving a raw int)."""

    def __init__(self, elem, n):
        self.elem, self.n = elem, n

    def decls(self, out):
        self.elem.decls(out)

    def _dim(self):
        return "[]" if self.n == NULL else "[EOF]" if self.n == EOF else f"[{self.n}]" if type(self.n) is int else f"[{self.n[0]}]"

    def declare(self, var):
        return self.elem.declare(f"{var}{self._dim()}")

    def size(self, cfg):
        if type(self.n) is not int:
            return None
        s = self.elem.size(cfg)
        return None if s is None else s * self.n

    def align(self, cfg):
        return self.elem.align(cfg)

    def read(self, cur, cfg, ctx):
        e = self.elem
        ch, wc = isinstance(e, Char), isinstance(e, Wchar)
        if self.n == NULL:
            out, units = [], []
            while True:
                if wc:
                    u = dec_int(cur.take(2), cfg.big, False)
                    if cur.env.branch(b_eq(u, 0)):
                        return utf16(cur, units)
                    units.append(u)
                elif ch:
                    b = cur.take(1)[0]
                    if cur.env.branch(b_eq(byte_it(b), 0)):
                        return ("b", tuple(out))
                    out.append(b)
                else:
                    v = e.read(cur, cfg, ctx)
                    if cur.env.branch(e.iszero(v)):
                        if isinstance(e, Float):
                            cur.float_ends.append((cur.pos - e.n, e))
                        return ("l", tuple(out))
                    out.append(v)
        if self.n == EOF:
            if getattr(cur, "no_eof", False):
                return ("l", ())
            if ch:
                return ("b", tuple(cur.take(cur.left())))
            s = e.size(cfg)
            if s is None:
                out = []
                while cur.left():
                    back = cur.pos, len(cur.leb), dict(cur.mask)
                    try:
                        out.append(e.read(cur, cfg, ctx))
                    except RefEOF:
                        cur.pos = back[0]
                        del cur.leb[back[1] :]
                        cur.mask = back[2]
                        break
                return ("l", tuple(out))
            count = cur.left() // s if s else 0
            if wc:
                return utf16(cur, [dec_int(cur.take(2), cfg.big, False) for _ in range(count)])
            r = ("l", tuple(e.read(cur, cfg, ctx) for _ in range(count)))
            return r
        if type(self.n) is int:
            n = self.n
        else:
            n = self.n[1](ctx)
        if type(n) is not int:
            n = count_of(cur, n)
        n = max(0, n)
        if ch:
            return ("b", tuple(cur.take(n)))
        if wc:
            return utf16(cur, [dec_int(cur.take(2), cfg.big, False) for _ in range(n)])
        return ("l", tuple(e.read(cur, cfg, ctx) for _ in range(n)))

    def default(self, cfg):
        e = self.elem
        n = self.n if type(self.n) is int else 0
        if isinstance(e, Char):
            return ("b", (0,) * n)
        if isinstance(e, Wchar):
            return ("s", (0,) * n)
        return ("l", tuple(e.default(cfg) for _ in range(n)))


def count_of(cur, n):
    """Fork a symbolic element count into concrete values; anything longer than the input is EOF at once."""
    env = cur.env
    lim = cur.left()
    if env.branch(b_le(n, 0)):
        return 0
    for k in range(1, lim + 1):
        if env.branch(b_eq(n, k)):
            return k
    return lim + 1


class Fld:
    """``at``: the explicit offset of a union member (which only ``add_field`` can declare)."""

    __slots__ = ("at", "bits", "name", "ty")

    def __init__(self, name, ty, bits=None, at=0):
        self.name, self.ty, self.bits, self.at = name, ty, bits, at


class Struct(Ty):
    """``name`` None: anonymous.  ``fields``: Fld list; a Fld with name None is an anonymous member."""

    def __init__(self, name, fields, union=False):
        self.name, self.fields, self.union = name, [f if isinstance(f, Fld) else Fld(*f) for f in fields], union

    @property
    def kw(self):
        return "union" if self.union else "struct"

    def body(self):
        parts = []
        for f in self.fields:
            if f.name is None:
                parts.append(f"{f.ty.kw} {{ {f.ty.body()} }};")
            elif isinstance(f.ty, Struct) and f.ty.name is None:
                parts.append(f"{f.ty.kw} {{ {f.ty.body()} }} {f.name};")
            else:
                parts.append(f.ty.declare(f.name) + (f":{f.bits}" if f.bits else "") + ";")
        return " ".join(parts)

    def text(self):
        return f"{self.kw} {self.name} {{ {self.body()} }};"

    def decls(self, out):
        for f in self.fields:
            f.ty.decls(out)
        if self.name is not None:
            out.setdefault(self.name, self.text())

    # -- layout ------------------------------------------------------------------------------------------------
    def align(self, cfg):
        return max([f.ty.align(cfg) for f in self.fields] or [1])

    def size(self, cfg):
        return self.layout(cfg)[0]

    def layout(self, cfg):
        """(size or None, [offset or None per field; a later member of a shared bit unit has its unit's offset])"""
        if self.union:
            sizes = [f.ty.size(cfg) for f in self.fields]
            if any(s is None for s in sizes):
                return None, [f.at for f in self.fields]
            s = max(sizes or [0])
            if cfg.align:
                s += -s % self.align(cfg)
            return s, [f.at for f in self.fields]
        off = 0
        offs = []
        unit, left, uoff = None, 0, None
        for f in self.fields:
            if f.bits:
                st = f.ty.base if isinstance(f.ty, Enum) else f.ty
                key = getattr(st, "base", st.name)
                if unit is None or unit != key or left == 0:
                    if off is not None:
                        if cfg.align:
                            off += -off % f.ty.align(cfg)
                        uoff = off
                        off += st.size(cfg)
                    else:
                        uoff = None
                    unit, left = key, 8 * st.size(cfg)
                if f.bits > left:
                    raise RefError("straddle")
                left -= f.bits
                offs.append(uoff)
                continue
            unit, left = None, 0
            if off is None:
                offs.append(None)
                continue
            if cfg.align:
                off += -off % f.ty.align(cfg)
            offs.append(off)
            s = f.ty.size(cfg)
            off = None if s is None else off + s
        if off is not None and cfg.align:
            off += -off % self.align(cfg)
        return off, offs

    # -- decoding ----------------------------------------------------------------------------------------------
    def members(self):
        """Names as the library exposes them: an anonymous member's fields appear in its place."""
        out = []
        for f in self.fields:
            if f.name is None:
                out.extend(f.ty.members())
            else:
                out.append(f.name)
        return out

    def read(self, cur, cfg, ctx=None):
        vals = {}
        if self.union:
            start = cur.pos
            size = self.size(cfg)
            if size is None:
                raise Skip("dynamic union")
            end = start
            buf = cur.els[: start + size]
            for f in self.fields:
                c = Cur(cur.env, buf, start + f.at)
                c.mask = cur.mask
                c.leb, c.floats = cur.leb, cur.floats
                v = f.ty.read(c, cfg, vals)
                cur.big = cfg.big
                end = max(end, c.pos)
                self._put(vals, f, v)
            cur.pos = start + size
            return ("st", self.name, tuple(vals.items()))
        start = cur.pos
        unit, left, ubits, uels, umask_at = None, 0, None, None, None
        sizes = {}
        for f in self.fields:
            if f.bits:
                st = f.ty.base if isinstance(f.ty, Enum) else f.ty
                key = getattr(st, "base", st.name)
                n = st.size(cfg)
                if unit is None or unit != key or left == 0:
                    if cfg.align:
                        cur.pos += -cur.pos % f.ty.align(cfg)
                    umask_at = cur.pos
                    uels = cur.take(n, [0] * n)
                    ubits = dec_int(uels, cfg.big, False)
                    unit, left = key, 8 * n
                used = 8 * n - left
                if cfg.big:
                    sh = left - f.bits
                else:
                    sh = used
                v = op_and(op_shr(ubits, sh), (1 << f.bits) - 1)
                m = ((1 << f.bits) - 1) << sh
                mb = m.to_bytes(n, "big" if cfg.big else "little")
                for i in range(n):
                    cur.mask[umask_at + i] |= mb[i]
                left -= f.bits
                v = ("e", f.ty.name, v) if isinstance(f.ty, Enum) else ("i", v)
                vals[f.name] = v
                continue
            unit, left = None, 0
            if cfg.align:
                cur.pos += -cur.pos % f.ty.align(cfg)
            p0 = cur.pos
            v = f.ty.read(cur, cfg, vals)
            sizes[f.name] = cur.pos - p0
            self._put(vals, f, v)
        cur.unpadded = cur.pos
        if cfg.align:
            cur.pos += -cur.pos % self.align(cfg)
        cur.sizes = sizes
        del start
        return ("st", self.name, tuple(vals.items()))

    def _put(self, vals, f, v):
        if f.name is None:
            vals.update(dict(v[2]))
        else:
            vals[f.name] = v

    def iszero(self, v):
        return zero_value(v)

    def default(self, cfg):
        vals = {}
        for f in self.fields:
            if f.bits:
                vals[f.name] = ("e", f.ty.name, 0) if isinstance(f.ty, Enum) else ("i", 0)
            else:
                self._put(vals, f, f.ty.default(cfg))
        return ("st", self.name, tuple(vals.items()))

    # -- definitions -------------------------------------------------------------------------------------------
    def source(self):
        out = {}
        self.decls(out)
        return "\n".join(out.values())


def zero_value(v):
    """Every integer, float, pointer, enum and string in the value is zero."""
    k = v[0]
    if k in ("i", "p"):
        return b_eq(v[1], 0)
    if k == "e":
        return b_eq(v[2], 0)
    if k == "f":
        from vse.core import zb
        from vse.values import f_zero

        return zb(f_zero(v[1], v[2]))
    if k == "b":
        return b_and(*[b_eq(byte_it(e), 0) for e in v[1]])
    if k == "s":
        from vse.core import code_it

        return b_and(*[b_eq(code_it(e), 0) for e in v[1]])
    if k == "l":
        return b_and(*[zero_value(x) for x in v[1]])
    if k == "st":
        return b_and(*[zero_value(x) for _, x in v[2]])
    if k == "void":
        return True
    raise Skip(k)


def anon_names(c):
    """Drop structure class names (anonymous structures have generated ones)."""
    if c[0] == "st":
        return ("st", "", tuple((n, anon_names(x)) for n, x in c[2]))
    if c[0] == "l":
        return ("l", tuple(anon_names(x) for x in c[1]))
    return c


__all__ = [n for n in dir() if not n.startswith("_")]
_ = (IT, mk, op_mul, rng)
