"""Named field fragments from which the checks compose structure definitions."""

from __future__ import annotations

from vse.core import op_add, op_and, op_mul, op_sub

from .model import EOF, NULL, Arr, Char, Enum, Fld, Float, Int, Leb, Ptr, Struct, Void, Wchar

U8, S8, U16, S16, U24, S24 = Int("uint8"), Int("int8"), Int("uint16"), Int("int16"), Int("uint24"), Int("int24")
U32, S32, U48, S48, U64, S64 = Int("uint32"), Int("int32"), Int("uint48"), Int("int48"), Int("uint64"), Int("int64")
U128, S128 = Int("uint128"), Int("int128")
F16, F32, F64 = Float("float16"), Float("float"), Float("double")
CH, WC, UL, SL, VOID = Char(), Wchar(), Leb(False), Leb(True), Void()
E8 = Enum("E8", "uint8", [("E8A", 1), ("E8B", 2), ("E8C", 2)])
E16 = Enum("E16", "uint16", [("E16A", 0), ("E16B", 300)])
E24 = Enum("E24", "uint24", [("E24A", 1)])
ES = Enum("ES", "int16", [("ESA", 1), ("ESB", 5)])
G8 = Enum("G8", "uint8", [("G8A", 1), ("G8B", 2), ("G8D", 8)], "flag")
G32 = Enum("G32", "uint32", [("G32A", 1), ("G32B", 0x80000000)], "flag")
N1 = Struct("N1", [("a", U8), ("b", U16)])
N2 = Struct("N2", [("c", U32), ("d", U8)])
N3 = Struct("N3", [("x", U8), ("in_", N1)])
NB = Struct("NB", [Fld("p", U8, 3), Fld("q", U8, 5)])
ND = Struct("ND", [("n", U8), ("d", Arr(U8, ("n", lambda c: c["n"][1])))])
NE = Struct("NE", [])
UN = Struct("UN", [("w", U32), ("h", U16), ("cs", Arr(U8, 4))], union=True)
UP = Struct("UP", [("w", U16), ("t", Arr(U8, 3))], union=True)
UT = Struct("UT", [("s", Arr(N1, 2)), ("w", U64)], union=True)


def num(c, k):
    return c[k][1]


def frag(key, i):
    """Fields of fragment ``key`` used at position ``i`` (names are made unique with ``i``)."""
    f, g = f"f{i}", f"g{i}"
    one = {
        "u8": U8, "s8": S8, "u16": U16, "s16": S16, "u24": U24, "s24": S24, "u32": U32, "s32": S32, "u48": U48,
        "s48": S48, "u64": U64, "s64": S64, "u128": U128, "s128": S128, "f16": F16, "f32": F32, "f64": F64,
        "ch": CH, "wc": WC, "ul": UL, "sl": SL, "void": VOID, "e8": E8, "e16": E16, "e24": E24, "es": ES, "g8": G8,
        "g32": G32,
        "p": Ptr(U32), "pc": Ptr(CH), "pv": Ptr(VOID), "pn": Ptr(N1), "pp": Ptr(Ptr(U8)),
        "u8x3": Arr(U8, 3), "u16x2": Arr(U16, 2), "s24x2": Arr(S24, 2), "u32x2": Arr(U32, 2), "u48x2": Arr(U48, 2),
        "chx3": Arr(CH, 3), "wcx2": Arr(WC, 2), "f32x2": Arr(F32, 2), "e8x2": Arr(E8, 2), "es2": Arr(ES, 2), "g8x2": Arr(G8, 2),
        "e24x2": Arr(E24, 2), "px2": Arr(Ptr(U8), 2), "u8x0": Arr(U8, 0), "chx0": Arr(CH, 0), "u16x0": Arr(U16, 0), "ulx2": Arr(UL, 2),
        "u128x2": Arr(U128, 2), "voidx2": Arr(VOID, 2),
        "u8z": Arr(U8, NULL), "u16z": Arr(U16, NULL), "s24z": Arr(S24, NULL), "chz": Arr(CH, NULL), "wcz": Arr(WC, NULL),
        "e8z": Arr(E8, NULL), "esz": Arr(ES, NULL), "g8z": Arr(G8, NULL), "ulz": Arr(UL, NULL), "slz": Arr(SL, NULL), "n1z": Arr(N1, NULL),
        "f32z": Arr(F32, NULL), "pz": Arr(Ptr(U8), NULL),
        "u8e": Arr(U8, EOF), "u16e": Arr(U16, EOF), "u24e": Arr(U24, EOF), "che": Arr(CH, EOF), "wce": Arr(WC, EOF),
        "e8e": Arr(E8, EOF), "e16e": Arr(E16, EOF), "n1e": Arr(N1, EOF), "ule": Arr(UL, EOF), "nbe": Arr(NB, EOF),
        "ne": NE, "nex2": Arr(NE, 2), "n1": N1, "n2": N2, "n3": N3, "nb": NB, "nd": ND, "n1x2": Arr(N1, 2), "n2x2": Arr(N2, 2), "nbx2": Arr(NB, 2), "ndx2": Arr(ND, 2),
        "un": UN, "up": UP, "ut": UT, "unx2": Arr(UN, 2),
        "u8x2x2": Arr(Arr(U8, 2), 2), "u16x2x3": Arr(Arr(U16, 3), 2), "chx2x2": Arr(Arr(CH, 2), 2), "wcx1x2": Arr(Arr(WC, 1), 2),
        "n1x2x1": Arr(Arr(N1, 1), 2), "e8x2x2": Arr(Arr(E8, 2), 2), "chzx2": Arr(Arr(CH, NULL), 2), "u8zx2": Arr(Arr(U8, NULL), 2),
        "u24x2x2": Arr(Arr(U24, 2), 2),
    }  # fmt: skip
    if key in one:
        return [Fld(f, one[key])]
    bit = {
        "b3": (U8, 3), "b5": (U8, 5), "b8": (U8, 8), "h4": (U16, 4), "h12": (U16, 12), "w1": (U32, 1), "w31": (U32, 31),
        "w32": (U32, 32), "eb2": (E8, 2), "eb6": (E8, 6), "gb4": (G8, 4), "sb3": (S8, 3), "sh7": (S16, 7), "sw9": (S32, 9), "tb5": (U24, 5),
        "tb24": (U24, 24), "xb7": (U64, 7), "xb64": (U64, 64), "qb9": (U48, 9), "e16b5": (E16, 5), "cb2": (CH, 2), "ob100": (U128, 100),
        "sb8": (S8, 8), "sh16": (S16, 16),
    }  # fmt: skip
    if key in bit:
        t, n = bit[key]
        return [Fld(f, t, n)]
    bits = {
        "b35": [(U8, 3), (U8, 5)], "b8b8": [(U8, 8), (U8, 8)], "h4c": [(U16, 4), (U16, 12)], "h3p": [(U16, 3), (U16, 6)],
        "w_h": [(U32, 7), (U16, 9)], "b_e": [(U8, 2), (E8, 3)], "b44b4": [(U8, 4), (U8, 4), (U8, 4)], "t12": [(U24, 5), (U24, 9)],
        "q11": [(U48, 20), (U48, 28)], "s_s": [(S16, 7), (S16, 9)], "x1": [(U64, 1), (U64, 63)], "eg": [(E8, 3), (G8, 3)],
    }  # fmt: skip
    if key in bits:
        return [Fld(f"{f}_{j}", t, n) for j, (t, n) in enumerate(bits[key])]
    dyn = {
        "dn": (Arr(U8, (f, lambda c: num(c, f))), U8),
        "d16": (Arr(U16, (f, lambda c: num(c, f))), U8),
        "dm": (Arr(U8, (f"{f} - 1", lambda c: op_sub(num(c, f), 1))), U8),
        "dx": (Arr(S16, (f"({f} & 1) + 1", lambda c: op_add(op_and(num(c, f), 1), 1))), U8),
        "dch": (Arr(CH, (f, lambda c: num(c, f))), U8),
        "dwc": (Arr(WC, (f"{f} * 1", lambda c: op_mul(num(c, f), 1))), U8),
        "d24": (Arr(U24, (f, lambda c: num(c, f))), S8),
        "dst": (Arr(N1, (f, lambda c: num(c, f))), U8),
        "de": (Arr(E16, (f, lambda c: num(c, f))), E8),
        "dp": (Arr(Ptr(U8), (f, lambda c: num(c, f))), U8),
    }
    if key == "de":
        return [Fld(f, E8), Fld(g, Arr(E16, (f, lambda c: c[f][2])))]
    if key in dyn:
        a, n = dyn[key]
        return [Fld(f, n), Fld(g, a)]
    if key in LARGE:
        return LARGE[key][0]()
    if key == "as":  # anonymous structure member
        return [Fld(None, Struct(None, [(f, U8), (g, U16)]))]
    if key == "au":
        return [Fld(None, Struct(None, [(f, U32), (g, Arr(U8, 4))], union=True))]
    if key == "ns":  # named member of anonymous structure type
        return [Fld(f, Struct(None, [("a", U8), ("b", U16)]))]
    if key == "nu":
        return [Fld(f, Struct(None, [("a", U16), ("b", U8)], union=True))]
    raise KeyError(key)


def build(keys, name="T", union=False):
    return Struct(name, [x for i, k in enumerate(keys) for x in frag(k, i)], union)


# Large definitions.  Only the bytes at PROBES are symbolic there, the others are fixed (and not zero): positions around the sizes buffers tend to have.
PROBES = [k + d for k in (16, 32, 64, 128, 256) for d in (-1, 0, 1)]
LONG = 300


def fill(n, hot=()):
    """Printable characters, also read as wchar; ``None`` is a symbolic byte."""
    return [None if i in hot else 0x21 + (7 * i + i // 79) % 0x4F for i in range(n)]


def _fixed(ty, hot=None):
    hot = PROBES if hot is None else hot
    return lambda: [Fld("x", ty), Fld("z", U8)], lambda st, cfg: fill(st.size(cfg), {*hot, st.size(cfg) - 1, st.size(cfg) - 2} if hot else {st.size(cfg) - 1})


def _null(ty, count):
    """Elements at the probes are zero or have one symbolic byte."""

    def data(st, cfg):
        w = ty.size(cfg)
        out = fill(count * w)
        for k in [p for p in PROBES if p < count]:
            out[k * w : k * w + w] = [0] * w
            out[k * w + (w - 1 if cfg.big else 0)] = None
        return out + [0] * w + [None]

    return lambda: [Fld("x", Arr(ty, NULL)), Fld("z", U8)], data


def _eof(ty, n):
    return lambda: [Fld("x", Arr(ty, EOF))], lambda st, cfg: fill(n, PROBES)


def _count(ty, count, n):
    """A length field that is ``count``; some room to spare."""
    return lambda: [Fld("n", U8), Fld("x", Arr(ty, ("n", lambda c: num(c, "n")))), Fld("z", U8)], lambda st, cfg: [count, *fill(n, PROBES)]


def _leb(ty):
    return lambda: [Fld("x", ty), Fld("z", U8)], lambda st, cfg: [None if i in (0, 4, 8, 9, 18, 19) else 0x80 | (37 * i + 5) % 0x7F for i in range(20)] + [0x3B, None]


def _many():
    cycle = [U8, U16, U24, CH, U32, Arr(CH, 3), E8, F32, WC, S64, Ptr(U8), Arr(U16, 2), S8, U128, N1, S16, F64, Arr(U8, 5), E16, S48]
    return [Fld(f"f{i}", cycle[i * 7 % len(cycle)]) for i in range(70)]


def _bitmany():
    out = []
    for i, (ty, parts) in enumerate([(U8, (1, 2, 5)), (U32, (1,) * 9 + (23,)), (U16, (3, 13)), (U64, (7, 9, 20, 28)), (U8, (4, 4)), (S16, (5, 6, 5)), (U24, (11, 13)), (U32, (32,)), (U64, (33, 31)), (U8, (7,)), (U16, (1,) * 16)]):
        out += [Fld(f"f{i}_{j}", ty, b) for j, b in enumerate(parts)]
    return [*out, Fld("z", U8)]


def _deep():
    ty = Struct("L0", [("a", U16), ("b", U8)])
    for i in range(1, 12):
        ty = Struct(f"L{i}", [("a", U8), ("d", ty)] if i % 2 else [("d", ty), ("a", U32)])
    return [Fld("x", ty), Fld("z", U8)]


def _size(fields, step):
    return fields, lambda st, cfg: fill(st.size(cfg), range(0, st.size(cfg), step))


LARGE = {
    "Lu8": _fixed(Arr(U8, LONG)), "Lu16": _fixed(Arr(U16, 131)), "Ls24": _fixed(Arr(S24, 70)), "Lu64": _fixed(Arr(U64, 41)), "Lch": _fixed(Arr(CH, LONG)),
    "Lwc": _fixed(Arr(WC, 70), ()), "Le16": _fixed(Arr(E16, 41), (66, 67)), "Lf32": _fixed(Arr(F32, 37), (64, 65)), "Lp": _fixed(Arr(Ptr(U8), 35)), "Ln1": _fixed(Arr(N1, 40)),
    "Lxx": _fixed(Arr(Arr(U16, 17), 9)), "Lcx": _fixed(Arr(Arr(CH, 17), 18)), "Lo": _fixed(Arr(U128, 20)),
    "Lz": _null(CH, LONG), "Lu8z": _null(U8, LONG), "Lwz": _null(WC, 130), "Lu16z": _null(U16, 130), "Ln1z": _null(N1, 66), "Ls24z": _null(S24, 66),
    "Lu8e": _eof(U8, LONG), "Lu16e": _eof(U16, 2 * 130), "Lche": _eof(CH, LONG), "Ln1e": _eof(N1, 4 * 36),
    "Ldn": _count(U8, 200, 210), "Ldch": _count(CH, 255, 260), "Ld16": _count(U16, 140, 290), "Ldn1": _count(N1, 65, 270),
    "Lul": _leb(UL), "Lsl": _leb(SL),
    "Lmany": _size(_many, 29), "L260": (lambda: [Fld(f"f{i}", U8) for i in range(260)], lambda st, cfg: fill(st.size(cfg), PROBES)), "Lbits": _size(_bitmany, 1), "Ldeep": _size(_deep, 1),
    "Lun": _size(lambda: [Fld("x", Struct("LU", [("a", Arr(U8, LONG)), ("b", Arr(U32, 71)), ("c", N1)], union=True)), Fld("z", U8)], 41),
}  # fmt: skip

FIXED_ALL = (
    "u8 s8 u16 s16 u24 s24 u32 s32 u48 s48 u64 s64 u128 s128 f16 f32 f64 ch wc void e8 e16 e24 es g8 g32 p pc pv pn pp "
    "u8x3 u16x2 s24x2 u32x2 u48x2 chx3 wcx2 f32x2 e8x2 es2 g8x2 e24x2 px2 u8x0 chx0 u16x0 ne nex2 n1 n2 n3 nb n1x2 n2x2 nbx2 un up ut unx2 "
    "u8x2x2 u16x2x3 chx2x2 wcx1x2 n1x2x1 e8x2x2 u24x2x2 as au ns nu"
).split()
BITS_ALL = "b3 b5 b8 h4 h12 w1 w31 w32 eb2 eb6 gb4 tb5 tb24 xb7 xb64 qb9 e16b5 b35 b8b8 h4c h3p w_h b_e b44b4 t12 q11 x1 eg".split()
SBITS = "sb3 sh7 sw9 sb8 sh16 s_s".split()
DYN_ALL = "ul sl ulx2 u8z u16z s24z chz wcz e8z esz g8z ulz slz n1z f32z pz nd ndx2 chzx2 u8zx2 dn d16 dm dx dch dwc d24 dst de dp".split()
EOF_ALL = "u8e u16e u24e che wce e8e e16e n1e ule nbe".split()
EOF_KEYS = {*EOF_ALL, "Lu8e", "Lu16e", "Lche", "Ln1e"}
# one representative per code path, for pairs and triples
CORE = "u8 u16 u24 u32 s48 u64 f32 ch wc e8 p u8x3 s24x2 chx3 wcx2 n1 un u8x2x2 as".split()
CORE_BITS = "b3 b5 h4 w31 eb2 tb5 b35 w_h".split()
CORE_DYN = "ul u8z chz wcz dn dx dch nd n1z".split()
# for triples
TRI = "u8 u16 u32 u64 s24x2 chx3 wc n1 b3 h4 w31 tb5 chz dn ul un".split()
# spare input bytes for variable-length fragments whose elements fork a lot (default: the check's own number)
EXTRA = {"ul": 2, "sl": 2, "g8z": 1, "e8z": 2, "esz": 2, "wcz": 2, "e8e": 1, "e16e": 0, "wce": 2, "slz": 2, "ulz": 2, "ulx2": 2, "ule": 2, "dwc": 2, "de": 2, "n1z": 4, "u16z": 4, "u16e": 4,
         "s24z": 3, "u24e": 6, "f32z": 4, "d16": 4, "dx": 4, "d24": 3, "dst": 4, "dp": 8, "nbe": 2, "n1e": 4}
# many paths each: thorough tier only
HEAVY = ["g8x2"]
HEAVY_FIRST = ["wcz"]
