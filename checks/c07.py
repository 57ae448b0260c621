"""C07: fixed, expression, null-terminated and to-end-of-stream arrays."""

from __future__ import annotations

from spec import menu as M
from spec.model import EOF, NULL, Arr, Cfg, Char, Cur, Enum, Fld, Float, Int, Leb, Ptr, RefEOF, RefError, Struct, Wchar, anon_names, utf16
from vse.canon import ceq, elseq
from vse.core import b_eq, b_not, byte_it, op_add, op_and, op_inv, op_mul, op_neg, op_or, op_shl, op_shr, op_sub
from vse.run import Job

from .common import CONFIGS, canonical, large_jobs, not_nan, pick, source

WITNESSES = ["parsed", "null", "eof", "expr", "refused", "fixed", "multi", "type", "large"]
BOUNDS = (
    "element types: every integer width, float, char, wchar, LEB128, enum, flag, pointer, structure (fixed, dynamic, bit-field), union and nested array; "
    "fixed lengths -1..4 (as literal, constant, constant expression, typedef and type[n]); length expressions over header fields of every integer kind, bit-fields and enums, with constants, "
    "shadowed constants and a constant named like a later field; null-terminated and to-end-of-stream arrays over every input of up to 3 (thorough 5) elements plus a part of one; "
    "two and three dimensions; arrays of 16 to 256 elements (symbolic at PROBES); dumping with every other number of elements from 0 to n + 2; header and element bytes symbolic; packed/aligned, both byte orders, both readers"
)
ASSUMPTIONS = [
    "null-terminated arrays of pointers, void, unions and structures with character members are outside the property (no zero element is defined for them, or it is not reachable)",
    "where the stream is left after an incomplete trailing element of a to-end-of-stream array is not specified",
]

K = 3
ND = M.ND
ELEMS = {
    "u8": M.U8, "s8": M.S8, "u16": M.U16, "s16": M.S16, "u24": M.U24, "s24": M.S24, "u32": M.U32, "s32": M.S32, "u48": M.U48, "u64": M.U64, "s64": M.S64, "u128": M.U128,
    "f16": M.F16, "f32": M.F32, "f64": M.F64, "ch": M.CH, "wc": M.WC, "ul": M.UL, "sl": M.SL, "e8": M.E8, "e16": M.E16, "e24": M.E24, "es": M.ES, "g8": M.G8, "g32": M.G32,
    "en": Enum("EN", "uint8", [("NONE", 2), ("END", 3), ("EOF", 1), ("NULL", 4)]),
    "p": Ptr(M.U32), "pp": Ptr(Ptr(M.U8)), "n1": M.N1, "n2": M.N2, "n3": M.N3, "nb": M.NB, "nd": ND, "un": M.UN, "up": M.UP,
}  # fmt: skip
NO_NULL = ("p", "pp", "un", "up")


def v(c, k):
    x = c[k]
    return x[2] if x[0] == "e" else x[1]


# name -> (header fields, expression text, its value over the header, trailing fields, constants)
EXPRS = {
    "n": ([Fld("n", M.U8)], "n", lambda c: v(c, "n"), [], ""),
    "s": ([Fld("n", M.S8)], "n", lambda c: v(c, "n"), [], ""),
    "n16": ([Fld("n", M.U16)], "n", lambda c: v(c, "n"), [], ""),
    "n24": ([Fld("n", M.S24)], "n", lambda c: v(c, "n"), [], ""),
    "n64": ([Fld("n", M.S64)], "n + 1", lambda c: op_add(v(c, "n"), 1), [], ""),
    "leb": ([Fld("n", M.UL)], "n", lambda c: v(c, "n"), [], ""),
    "enum": ([Fld("n", M.E8)], "n", lambda c: v(c, "n"), [], ""),
    "flag": ([Fld("n", M.G8)], "n - 1", lambda c: op_sub(v(c, "n"), 1), [], ""),
    "ptr": ([Fld("n", Ptr(M.U8))], "n", lambda c: v(c, "n"), [], ""),
    "bits": ([Fld("n", M.U8, 3), Fld("m", M.U8, 5)], "m - n", lambda c: op_sub(v(c, "m"), v(c, "n")), [], ""),
    "minus": ([Fld("n", M.U8), Fld("m", M.U8)], "n - m", lambda c: op_sub(v(c, "n"), v(c, "m")), [], ""),
    "neg": ([Fld("n", M.S8)], "-n", lambda c: op_neg(v(c, "n")), [], ""),
    "inv": ([Fld("n", M.U8)], "~n & 3", lambda c: op_and(op_inv(v(c, "n")), 3), [], ""),
    "shift": ([Fld("n", M.U8)], "(n >> 6) << 1", lambda c: op_shl(op_shr(v(c, "n"), 6), 1), [], ""),
    "or": ([Fld("n", M.U8)], "n & 1 | 2", lambda c: op_or(op_and(v(c, "n"), 1), 2), [], ""),
    "mul": ([Fld("n", M.U8), Fld("m", M.S8)], "n*m", lambda c: op_mul(v(c, "n"), v(c, "m")), [], ""),
    "const": ([Fld("n", M.U8)], "K - n", lambda c: op_sub(K, v(c, "n")), [], f"#define K {K}\n"),
    "shadow": ([Fld("K", M.U8)], "K", lambda c: v(c, "K"), [], f"#define K {K}\n"),
    "shadow2": ([Fld("n", M.U8), Fld("K", M.U8)], "n - K", lambda c: op_sub(v(c, "n"), v(c, "K")), [], f"#define K {K}\n#define n 2\n"),
    "later": ([Fld("n", M.U8)], "K - 1", lambda c: K - 1, [Fld("K", M.U8)], f"#define K {K}\n"),
    "sizeof": ([Fld("n", M.U8)], "sizeof(uint32) - n", lambda c: op_sub(4, v(c, "n")), [], ""),
    "far": ([Fld("n", M.U8), Fld("s", M.CH), Fld("q", M.N1), Fld("w", M.U16)], "n", lambda c: v(c, "n"), [], ""),
    "after": ([Fld("t", Arr(M.CH, NULL)), Fld("n", M.U8)], "n", lambda c: v(c, "n"), [], ""),
}  # fmt: skip


def source_text(st, consts=""):
    return consts + st.source()


def compare(env, cs, st, cfg, data, known=(), tell=True):
    """Parse ``data`` as T and compare with the reference, values and number of elements; then dump. -> (result, cursor) or None"""
    els = env.els(data)
    cur = Cur(env, els)
    try:
        want = st.read(cur, cfg)
    except (RefEOF, RefError):
        want = None
    stream = env.stream(data)
    r = env.call(cs.T, stream)
    if want is None:
        env.check(not r.ok, "a value was parsed from too short an input", lambda: f"{bytes(data).hex()} -> {r!r}", known)
        return None
    env.check(r.ok, "parsing raised", lambda: f"{bytes(data).hex()} -> {r!r}", known)
    if not r.ok:
        return None
    env.reach("parsed")
    env.observe("value", r.value)
    env.check(ceq(anon_names(env.canon(r.value)), anon_names(want)), "elements differ", lambda: f"{bytes(data).hex()} -> {r.value!r}", known)
    for name, w in want[2]:
        if w[0] in ("l", "b"):
            env.check(len(getattr(r.value, name)) == len(w[1]), "number of elements", lambda: f"{name}: {len(getattr(r.value, name))} != {len(w[1])}")
    env.check(stream.tell() == cur.pos, "bytes consumed", lambda: f"{bytes(data).hex()}: {stream.tell()} != {cur.pos}", known)
    for pos, f in cur.float_ends:  # see C02's finding about terminators
        env.assume(b_not(b_eq(byte_it(els[pos] if cfg.big else els[pos + f.n - 1]), 0x80)))
    for pos, f in cur.floats:
        env.assume(not_nan(els[pos : pos + f.n], f, cfg.big))
    cur.big = cfg.big
    cur.floats = []
    canonical(env, cur, els)
    out = env.call(r.value.dumps)
    env.check(out.ok, "dumping a parsed array raised", lambda: f"{r.value!r}: {out!r}", known)
    got = env.els(out.value)
    wantb = [0 if i >= len(els) else els[i] & cur.mask.get(i, 0) if cur.mask.get(i, 0) != 0xFF else els[i] for i in range(cur.pos)]
    pad = len(got) - len(wantb) if cfg.align and any(isinstance(f.ty, Arr) and f.ty.n == EOF for f in st.fields) else 0
    env.check(elseq(got[: len(got) - pad], wantb, 8), "dumped bytes differ", lambda: f"{bytes(data).hex()} -> {bytes(out.value).hex()}", known)
    env.check(all(g == 0 for g in got[len(got) - pad :]), "padding", lambda: bytes(out.value).hex())
    return r, cur


def bare(ty, cfg):
    """Bytes up to the end of the last field."""
    if ty.union:
        return max(f.ty.size(cfg) for f in ty.fields)
    c = Cur(None, [0] * ty.size(cfg))
    ty.read(c, cfg)
    return c.unpadded


MANY = ("e8", "es", "g8", "g32", "nd", "ul", "sl", "e16", "wc")


def width(ty, cfg):
    s = ty.size(cfg)
    return (1 if isinstance(ty, Leb) else 2) if s is None else s


def fixed(env, elems, n, form, endian, align, compiled):
    key = env.choice("elem", elems)
    env.tag = key
    e = ELEMS[key]
    cfg = Cfg(endian, align)
    count = max(0, n)
    arr = Arr(e, count)
    consts = ""
    if form == "literal":
        dim = f"{n}"
    elif form == "const":
        consts, dim = f"#define K {n}\n", "K"
    elif form == "expr":
        consts, dim = "#define K 7\n", f"(K - 5) * 2 + {n - 4}"
    if form == "typedef":
        st = Struct("T", [("a", M.U8), ("x", arr), ("z", M.U8)])
        head = {}
        e.decls(head)
        src = "\n".join(head.values()) + f"\ntypedef {e.declare(f'XS[{n}]')};\nstruct T {{ uint8 a; XS x; uint8 z; }};"
    else:
        shown = Arr(e, (dim, None))
        head = {}
        e.decls(head)
        st = Struct("T", [("a", M.U8), ("x", arr), ("z", M.U8)])
        src = consts + "\n".join(head.values()) + f"\nstruct T {{ uint8 a; {shown.declare('x')}; uint8 z; }};"
    cs = env.load(src, endian=endian, align=align, compiled=compiled, pointer="uint64")
    size = st.size(cfg)
    if size is not None:
        env.check(cs.T.size == size, "size of a structure with a fixed array", lambda: f"{cs.T.size} != {size}")
        env.check(cs.T.fields["x"].type.size == count * e.size(cfg), "size of a fixed array")
    m = size if size is not None else 3 + count * width(e, cfg) + (2 if align else 0)
    res = compare(env, cs, st, cfg, env.bytes("data", m))
    env.reach("fixed")
    if res is None:
        return
    r, _ = res
    if isinstance(e, (Char, Wchar)) or size is None:
        return
    # any other number of elements is refused
    have = list(r.value.x)
    proto = have[0] if have else cs.T.fields["x"].type.type.__default__()
    for other in range(count + 3):
        xs = (have * 3 + [proto] * 3)[:other]
        how = [("assign", lambda: assign(r.value, xs)), ("type", lambda: cs.T.fields["x"].type.dumps(xs)), ("new", lambda: cs.T(x=xs).dumps())]
        for name, f in how:
            o = env.call(f)
            if other == count:
                env.check(o.ok, "dumping the right number of elements raised", lambda: f"{name} {xs!r}: {o!r}")
            else:
                env.check(not o.ok, "dumping another number of elements than the array has", lambda: f"{name} {count} vs {xs!r}: {o!r}")
                env.check(type(o.exc).__name__ == "ArraySizeError", "another error than the array size's", lambda: f"{name}: {o!r}")
                env.reach("refused")


def assign(obj, xs):
    obj.x = xs
    return obj.dumps()


def expr(env, elems, exprs, endian, align, compiled, room):
    key = env.choice("elem", elems)
    ek = env.choice("expr", exprs)
    env.tag = f"{key}/{ek}"
    e = ELEMS[key]
    head, text, fn, tail, consts = EXPRS[ek]
    cfg = Cfg(endian, align, "uint8" if ek == "ptr" else "uint64")
    st = Struct("T", [*head, ("x", Arr(e, (text, fn))), *tail, ("z", M.U8)])
    cs = env.load(source_text(st, consts), endian=endian, align=align, compiled=compiled, pointer=cfg.ptr)
    hs = Struct("H", head).size(Cfg(endian, align, cfg.ptr)) or (2 if ek == "leb" else 3)
    n = hs + 2 + len(tail) + room * width(e, cfg)
    if align and e.align(cfg) > 1:
        n += min(e.align(cfg), 8)
    if key in ("nd", "e8", "ul") and env.limit == "quick":
        n -= 1
    compare(env, cs, st, cfg, env.bytes("data", n))
    env.reach("expr")


def null(env, elems, form, endian, align, compiled, room):
    """Only whole arrays, so that the room goes to elements."""
    key = env.choice("elem", elems)
    env.tag = key
    e = ELEMS[key]
    cfg = Cfg(endian, align)
    fields = {
        "alone": [("x", Arr(e, NULL))],
        "mid": [("a", M.U8), ("x", Arr(e, NULL)), ("z", M.U8)],
        "two": [("x", Arr(e, NULL)), ("y", Arr(e, NULL))],
        "x2": [("x", Arr(Arr(e, NULL), 2))],
        "nested": [("s", Struct("IN", [("x", Arr(e, NULL)), ("k", M.U8)])), ("z", M.U8)],
    }[form]
    st = Struct("T", fields)
    cs = env.load(source_text(st), endian=endian, align=align, compiled=compiled)
    w = width(e, cfg)
    if key in MANY and env.limit == "quick":
        room -= 1
    n = room * w + {"alone": 0, "mid": 2, "two": w, "x2": w, "nested": 2}[form]
    if align:
        n += e.align(cfg)
    compare(env, cs, st, cfg, env.bytes("data", n))
    env.reach("null")


def eof(env, elems, form, endian, align, compiled, room):
    key = env.choice("elem", elems)
    env.tag = key
    e = ELEMS[key]
    cfg = Cfg(endian, align)
    fields = {
        "alone": [("x", Arr(e, EOF))],
        "mid": [("a", M.U8), ("x", Arr(e, EOF))],
        "x2": [("x", Arr(Arr(e, 2), EOF))],
        "nested": [("a", M.U16), ("s", Struct("IN", [("x", Arr(e, EOF))]))],
    }[form]
    st = Struct("T", fields)
    cs = env.load(source_text(st), endian=endian, align=align, compiled=compiled)
    w = width(e, cfg) * (2 if form == "x2" else 1)
    if (key in MANY or form == "x2") and env.limit == "quick":
        room -= 1
    if key in MANY and form == "x2":
        room -= 1
    lengths = sorted({0, 1, w - 1, w, w + 1, 2 * w - 1, 2 * w, room * w, room * w + w // 2} - {-1})
    lengths = [n for n in lengths if n <= room * w + w // 2]
    if align and isinstance(e, Struct) and e.size(cfg) is not None:
        # an element whose tail padding alone is missing may or may not count as whole
        gap = e.size(cfg) - bare(e, cfg)
        lengths = [n for n in lengths if not 0 < -n % w <= gap]
    n = env.choice("length", lengths)
    base = {"mid": 1, "nested": 2}.get(form, 0)
    if align and base:
        base += -base % e.align(cfg)
    compare(env, cs, st, cfg, env.bytes("data", base + n))
    env.reach("eof")


def multi(env, elems, form, endian, align, compiled):
    """Dimensions nest in C order."""
    key = env.choice("elem", elems)
    env.tag = f"{key}/{form}"
    e = ELEMS[key]
    cfg = Cfg(endian, align)
    N, Mm = ("n", lambda c: v(c, "n")), ("(m & 1) + 1", lambda c: op_add(op_and(v(c, "m"), 1), 1))
    dims = {
        "2x3": (2, 3), "3x2": (3, 2), "1x4": (1, 4), "2x1x3": (2, 1, 3), "2x2x2": (2, 2, 2), "0x2": (0, 2), "2x0": (2, 0), "nx2": (N, 2), "2xn": (2, N), "nxm": (N, Mm), "ex2": (EOF, 2), "ex1x2": (EOF, 1, 2),
    }[form]  # fmt: skip
    ty = e
    for d in reversed(dims):
        ty = Arr(ty, d)
    st = Struct("T", [("n", M.U8), ("m", M.U8), ("x", ty)] + ([] if EOF in dims else [("z", M.U8)]))
    cs = env.load(source_text(st), endian=endian, align=align, compiled=compiled)
    size = st.size(cfg)
    w = width(e, cfg)
    n = size if size is not None else (2 + -2 % (e.align(cfg) if align else 1)) + 1 + 4 * w + (w // 2 if EOF in dims else 0)
    res = compare(env, cs, st, cfg, env.bytes("data", n))
    env.reach("multi")
    if res is None or size is None or isinstance(e, (Char, Wchar)):
        return
    # a wrong number of elements in an inner dimension is refused as well
    r, _ = res
    x = r.value.x
    if not len(x):
        return
    for wrong in (list(x[0])[:-1], [*x[0], *x[0]] if len(x[0]) else None):
        if wrong is None or len(wrong) == len(x[0]):
            continue
        o = env.call(assign, r.value, [*x[:-1], wrong])
        env.check(not o.ok, "dumping an inner dimension of another length", lambda: f"{wrong!r}: {o!r}")
        env.reach("refused")


def alone(env, elems, n, endian):
    """The array types made from a type: t[n], t[None], and their arrays."""
    key = env.choice("elem", elems)
    env.tag = f"{key}[{n}]"
    e = ELEMS[key]
    cfg = Cfg(endian)
    decl = Struct("D", [("f", e)])
    cs = env.load(decl.source(), endian=endian)
    t = cs.D.fields["f"].type
    arr = Arr(e, NULL if n is None else max(0, n))
    at = t[n]
    two = env.choice("again", [False, True] if key not in MANY or n != 3 and n else [False])
    if two:
        at, arr = at[2], Arr(arr, 2)
    w = width(e, cfg)
    data = env.bytes("data", (2 * w if n is None else max(0, n) * w) * (2 if two else 1) + 1)
    els = env.els(data)
    cur = Cur(env, els)
    try:
        want = arr.read(cur, cfg, {})
    except (RefEOF, RefError):
        want = None
    stream = env.stream(data)
    r = env.call(at, stream)
    if want is None:
        env.check(not r.ok, "a value was parsed from too short an input", lambda: f"{bytes(data).hex()} -> {r!r}")
        return
    env.check(r.ok, "parsing raised", lambda: f"{bytes(data).hex()} -> {r!r}")
    env.observe("value", r.value)
    env.check(ceq(anon_names(env.canon(r.value)), anon_names(want)), "elements differ", lambda: f"{bytes(data).hex()} -> {r.value!r}")
    env.check(stream.tell() == cur.pos, "bytes consumed")
    if n is not None and e.size(cfg) is not None:
        env.check(len(at) == arr.size(cfg), "size of an array type", lambda: f"{len(at)} != {arr.size(cfg)}")
    env.reach("type")


def anonymous(env, endian, compiled):
    """A length over a member of an anonymous structure."""
    st = Struct("T", [(None, Struct(None, [("n", M.U8)])), ("x", Arr(M.U8, ("n", lambda c: v(c, "n")))), ("z", M.U8)])
    cs = env.load(st.source(), endian=endian, compiled=compiled)
    compare(env, cs, st, Cfg(endian), env.bytes("data", 5), known=[("anonymous-member-length", True)])


def large(env, prefix, options, endian, align, compiled, extra):
    """Many elements."""
    keys, st, cfg, n = pick(env, prefix, options, endian, align, compiled, extra)
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled)
    compare(env, cs, st, cfg, source(env, keys, st, cfg, n))
    env.reach("large")


def jobs(tier, lib):
    quick = tier == "quick"
    yield from large_jobs(large, tier, configs=CONFIGS)
    every = list(ELEMS)
    some = "u8 u16 s24 u64 f32 ch wc ul e8 es p n1 nb nd un".split()
    few = "u8 u16 u24 ch wc e24 n1 ul".split()
    cfgs = [(e, al, c) for e in "<>" for al in (False, True) for c in (False, True)]
    for i, (e, al, c) in enumerate(cfgs):
        kw = {"endian": e, "align": al, "compiled": c}
        both = not quick or i in (1, 4)
        for n in (-1, 0, 1, 2, 3, 4):
            for form in ("literal", "const", "expr", "typedef"):
                if quick and form != "literal" and (n not in (-1, 2) or not both):
                    continue
                # void-like and huge elements only once
                xs = [k for k in (every if both or form == "literal" and n in (2, 3) else few) if not (k in ("g8", "g32", "nd", "sl", "e16", "es") and n > (1 if quick else 2)) and not (quick and n == 4 and k not in few)]
                for j in range(0, len(xs), 9):
                    yield Job(fixed, {"elems": xs[j : j + 9], "n": n, "form": form, **kw}, cost=8)
        for ek in EXPRS:
            xs = (some if both else few) if ek in ("n", "s", "minus", "shadow") or not quick else (few if both else few[:4])
            if ek in ("n16", "n24", "n64", "leb", "mul", "far", "after") and quick:
                xs = few[:4]
            for j in range(0, len(xs), 8):
                yield Job(expr, {"elems": xs[j : j + 8], "exprs": [ek], "room": 2 if quick else 4, **kw}, cost=10)
        for form in ("alone", "mid", "two", "x2", "nested"):
            if quick and form in ("two", "x2", "nested") and not both:
                continue
            xs = [k for k in (every if form in ("alone", "mid") or not quick else few + ["e8", "f32", "u64"]) if k not in NO_NULL and k != "n3"]
            if quick and form in ("two", "x2"):
                xs = [k for k in xs if k not in ("wc",)]
            if quick and form != "alone":
                xs = [k for k in xs if k not in ("g8", "g32", "sl")]
            for j in range(0, len(xs), 6):
                room = 3 if quick else 4
                yield Job(null, {"elems": xs[j : j + 6], "form": form, "room": room, **kw}, cost=20)
        for form in ("alone", "mid", "x2", "nested"):
            xs = [k for k in (every if form == "alone" or not quick else some if both else few) if not (k == "g8" and quick)]
            for j in range(0, len(xs), 6):
                yield Job(eof, {"elems": xs[j : j + 6], "form": form, "room": 3, **kw}, cost=20)
        for form in ("2x3", "3x2", "1x4", "2x1x3", "2x2x2", "0x2", "2x0", "nx2", "2xn", "nxm", "ex2", "ex1x2"):
            if quick and not both and form in ("1x4", "2x1x3", "2x2x2", "0x2"):
                continue
            xs = few[:2] + ["ch", "n1"] if quick and form in ("nx2", "nxm") else few[:-1] if quick else [k for k in some if k != "f32"]
            yield Job(multi, {"elems": xs, "form": form, **kw}, cost=20)
    for e in "<>":
        for n in (None, -1, 0, 1, 3):
            xs = [k for k in every if not (n is None and (k in NO_NULL or k == "n3"))]
            if quick and (n is None or n == 3):
                xs = [k for k in xs if k not in ("g8", "g32", "sl", "es", "nd", "e16")]
            for j in range(0, len(xs), 10):
                yield Job(alone, {"elems": xs[j : j + 10], "n": n, "endian": e}, cost=10)
        for c in (False, True):
            yield Job(anonymous, {"endian": e, "compiled": c})


_ = (Enum, Float, Int, utf16)
