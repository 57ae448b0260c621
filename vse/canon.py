"""Canonical, engine-independent form of library values, and equality of canonical forms as a condition."""

from __future__ import annotations

import struct

import z3

from . import core
from .core import b_and, b_eq, zb
from .values import (
    FBITS,
    PH_CLOSE,
    PH_OPEN,
    SBool,
    SByteArray,
    SBytes,
    SFloat,
    SInt,
    SMemoryView,
    SStr,
    bytes_els,
    f_nan,
    raw,
    str_els,
)


def canon(v, lib, depth=0):
    """Nested tuples over raw integers, byte elements and character elements."""
    if depth > 20:
        return ("deep",)
    t = type(v)
    if v is None:
        return ("none",)
    if t is bool or t is SBool or t is int or t is SInt:
        return ("i", raw(v))
    if isinstance(v, lib.Pointer):
        return ("p", raw(v))
    if isinstance(v, (lib.Enum, lib.Flag)):
        return ("e", t.__name__, raw(v))
    if isinstance(v, lib.Void):
        return ("void",)
    while hasattr(t, "__target__") or t.__name__ == "UnionProxy":
        v = object.__getattribute__(v, "__target__")
        t = type(v)
    if isinstance(v, lib.Structure):
        return ("st", t.__name__, tuple((k, canon(getattr(v, k), lib, depth + 1)) for k in t.fields))
    if isinstance(v, (SBytes, bytes, SByteArray, bytearray, SMemoryView, memoryview)):
        return ("b", tuple(bytes_els(v)))
    if isinstance(v, (str, SStr)):
        return ("s", tuple(str_els(v)))
    if isinstance(v, (int, SInt)):
        return ("i", raw(v))
    if isinstance(v, SFloat) and v._sym():
        return ("f", v._fv[0], v._fv[1])
    if isinstance(v, (float, SFloat)):
        return ("f", "d", z3.BitVecVal(fbits(float(v) if not isinstance(v, SFloat) else v._fv), 64))
    if isinstance(v, (list, tuple)):
        return ("l", tuple(canon(x, lib, depth + 1) for x in v))
    if isinstance(v, dict):
        return ("d", tuple((k if type(k) is str else str(k), canon(x, lib, depth + 1)) for k, x in v.items()))
    if isinstance(v, type):
        return ("t", v.__name__)
    if isinstance(v, BaseException):
        return ("x", type(v).__name__)
    return ("o", t.__name__)


def fbits(f):
    return int.from_bytes(struct.pack(">d", f), "big")


def _f_as(code, x):
    """Canonical float -> double pattern term."""
    if x[1] == code:
        return x[2]
    return None


def feq(a, b):
    """Same float: same number (and the same sign for zeros), any NaN equal to any NaN."""
    if a[1] == b[1]:
        x, y = a[2], b[2]
        return zb(z3.Or(x == y, z3.And(f_nan(a[1], x), f_nan(b[1], y))))
    if a[1] != "d" and b[1] == "d" and z3.is_bv_value(b[2]):
        a, b = b, a
    if a[1] == "d" and z3.is_bv_value(a[2]):
        f = struct.unpack(">d", a[2].as_long().to_bytes(8, "big"))[0]
        if f != f:
            return zb(f_nan(b[1], b[2]))
        try:
            p = struct.pack(">" + b[1], f)
        except OverflowError:
            return False
        if struct.unpack(">" + b[1], p)[0] != f:
            return False
        return zb(b[2] == int.from_bytes(p, "big"))
    raise core.Gap("float formats differ")


def ceq(a, b):
    """Equality of canonical values, as bool or z3 Bool."""
    if a is b:
        return True
    if a[0] != b[0]:
        return False
    k = a[0]
    if k in ("i", "p"):
        return b_eq(a[1], b[1])
    if k == "e":
        return b_and(a[1] == b[1], b_eq(a[2], b[2]))
    if k in ("b", "s"):
        return elseq(a[1], b[1], 8 if k == "b" else 21)
    if k == "f":
        return feq(a, b)
    if k in ("l",):
        if len(a[1]) != len(b[1]):
            return False
        return b_and(*[ceq(x, y) for x, y in zip(a[1], b[1])])
    if k == "st":
        if a[1] != b[1] and a[1] is not None and b[1] is not None:
            return False
        a, b = a[2], b[2]
        if len(a) != len(b) or any(x[0] != y[0] for x, y in zip(a, b)):
            return False
        return b_and(*[ceq(x[1], y[1]) for x, y in zip(a, b)])
    if k == "d":
        a, b = a[1], b[1]
        if len(a) != len(b) or any(x[0] != y[0] for x, y in zip(a, b)):
            return False
        return b_and(*[ceq(x[1], y[1]) for x, y in zip(a, b)])
    return a == b


def elseq(a, b, w):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int:
            if x != y:
                return False
        else:
            x = z3.BitVecVal(x, w) if type(x) is int else x
            out.append(zb(x == y))
    return b_and(*out)


# --------------------------------------------------------------------------------------------------------------
# evaluation under a model
# --------------------------------------------------------------------------------------------------------------


def ev_int(r, model):
    if type(r) is int:
        return r
    return model.eval(r.t, model_completion=True).as_signed_long()


def ev_el(e, model):
    return e if type(e) is int else model.eval(e, model_completion=True).as_long()


def render(codes, ctx, model):
    """Text with every placeholder replaced by the digits its value has in the model."""
    s = "".join(map(chr, codes))
    if PH_OPEN not in s:
        return s
    out, i = [], 0
    while True:
        j = s.find(PH_OPEN, i)
        if j < 0:
            out.append(s[i:])
            break
        k = s.find(PH_CLOSE, j)
        body = s[j + 1 : k]
        out.append(s[i:j])
        if k < 0 or not body.isdigit() or int(body) not in ctx.placeholders:
            out.append(s[j : k + 1])
        else:
            v, spec = ctx.placeholders[int(body)]
            out.append(fmt_model(v, spec, model))
        i = k + 1
    return "".join(out)


def fmt_model(v, spec, model):
    if isinstance(v, SFloat):
        code, bits = v._fv
        n = ev_el(bits, model)
        f = struct.unpack(">" + code, n.to_bytes(FBITS[code] // 8, "big"))[0]
        return format(f, spec) if spec else repr(f)
    if isinstance(v, (SBytes, SStr)):
        els = [ev_el(e, model) for e in v._e()]
        x = bytes(els) if isinstance(v, SBytes) else "".join(map(chr, els))
        return repr(x) if spec in ("", "r") else format(x, spec)
    n = ev_int(raw(v), model)
    return format(n, spec) if spec else str(n)


def evaluate(c, ctx, model):
    """Canonical value -> JSON-comparable concrete form."""
    k = c[0]
    if k in ("i", "p"):
        return [k, ev_int(c[1], model)]
    if k == "e":
        return [k, c[1], ev_int(c[2], model)]
    if k == "b":
        return [k, bytes(ev_el(e, model) for e in c[1]).hex()]
    if k == "s":
        return [k, render([ev_el(e, model) for e in c[1]], ctx, model) if ctx else "".join(map(chr, c[1]))]
    if k == "f":
        n = c[2].as_long() if z3.is_bv_value(c[2]) else ev_el(c[2], model)
        f = struct.unpack(">" + c[1], n.to_bytes(FBITS[c[1]] // 8, "big"))[0]
        return [k, "nan" if f != f else repr(f)]
    if k == "l":
        return [k, [evaluate(x, ctx, model) for x in c[1]]]
    if k == "st":
        return [k, c[1], [[n, evaluate(x, ctx, model)] for n, x in c[2]]]
    if k == "d":
        return [k, [[n, evaluate(x, ctx, model)] for n, x in c[1]]]
    return list(c)
