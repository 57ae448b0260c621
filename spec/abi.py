"""The C ABI of this machine, through ctypes: a second oracle for layouts (x86-64 System V)."""

from __future__ import annotations

import ctypes as C

from .model import Arr, Char, Enum, Float, Int, Ptr, Struct, Wchar

_INT = {("int8"): C.c_int8, "uint8": C.c_uint8, "int16": C.c_int16, "uint16": C.c_uint16, "int32": C.c_int32, "uint32": C.c_uint32, "int64": C.c_int64, "uint64": C.c_uint64}


class NoABI(Exception):
    """C has no such type."""


def ctype(ty, cfg):
    if isinstance(ty, Int) and ty.base in _INT:
        return _INT[ty.base]
    if isinstance(ty, Enum):
        return ctype(ty.base, cfg)
    if isinstance(ty, Float) and ty.code in "fd":
        return C.c_float if ty.code == "f" else C.c_double
    if isinstance(ty, Char):
        return C.c_char
    if isinstance(ty, Wchar):
        return C.c_uint16
    if isinstance(ty, Ptr):
        if cfg.ptr in ("uint64", "uint32", "uint16"):
            return {"uint64": C.c_void_p, "uint32": C.c_uint32, "uint16": C.c_uint16}[cfg.ptr]
        raise NoABI
    if isinstance(ty, Arr) and type(ty.n) is int:
        return ctype(ty.elem, cfg) * ty.n
    if isinstance(ty, Struct):
        fs = []
        for i, f in enumerate(ty.fields):
            if f.bits:
                raise NoABI
            fs.append((f.name or f"_anon{i}", ctype(f.ty, cfg)))
        d = {"_fields_": fs}
        if not cfg.align:
            d["_pack_"] = 1
        return type(ty.name or "anon", (C.Union if ty.union else C.Structure,), d)
    raise NoABI


def layout(st, cfg):
    """(size, alignment, [offset per field]) as the C compiler of this machine lays the structure out."""
    t = ctype(st, cfg)
    return C.sizeof(t), C.alignment(t), [getattr(t, f.name or f"_anon{i}").offset for i, f in enumerate(st.fields)]
