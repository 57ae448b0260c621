"""C03: the compiled reader is observationally equivalent to the interpreted reader."""

from __future__ import annotations

from spec import menu as M
from vse.canon import ceq
from vse import values
from vse.run import Job

from .common import definition_jobs, min_len, pick, source

WITNESSES = ["both", "both raise", "fallback", "compiled", "pointed"]
BOUNDS = (
    "definitions: definitions with a part of 16 to 256 bytes or elements (LARGE of spec/menu.py), of which the bytes at PROBES are symbolic and the rest fixed; every fragment of spec/menu.py alone and after a uint8, in all four endian/alignment modes, all ordered pairs of core "
    "fragments and triples over a 10-fragment core (at most one of variable length) in two modes (thorough: all four, any triple of 16 fragments), pointer widths 2/4/6/8/16 bytes; pointers to every kind of target (also ones that use earlier fields) as field, array and nested, dereferenced at two places; inputs: every byte string of the minimal length, "
    "of one and two bytes less, and (variable-length definitions) of up to 3 (thorough 6) bytes more"
)


def observe(env, cls, data):
    stream = env.stream(data)
    r = env.call(cls, stream)
    return r, stream.tell()


def layout(cls):
    return (
        cls.size,
        cls.alignment,
        cls.dynamic,
        [(f.name, f.offset, f.bits, f.alignment, f.type.__name__) for f in cls.__fields__ if f.name is not None],
    )


def compare(env, src, data_n, endian, align, ptr=None, name="T", data=None):
    kw = {"endian": endian} if ptr is None else {"endian": endian, "pointer": ptr}
    a = env.load(src, align=align, compiled=False, **kw)
    b = env.load(src, align=align, compiled=True, **kw)
    ta, tb = getattr(a, name), getattr(b, name)
    env.reach("compiled" if tb.__compiled__ else "fallback")
    env.check(not ta.__compiled__, "interpreted type is compiled")
    env.check(layout(ta) == layout(tb), "layouts differ", lambda: f"{layout(ta)} != {layout(tb)}")
    data = env.bytes("data", data_n) if data is None else data
    ra, na = observe(env, ta, data)
    rb, nb = observe(env, tb, data)
    if ra.ok != rb.ok:
        # one reader may notice missing padding; a value backed by enough input must come from both
        bad = ra if not ra.ok else rb
        n = na if ra.ok else nb
        env.check(
            n > data_n and bad.kind == "EOFError",
            "only one reader accepts the input",
            lambda: f"{bytes(data).hex()}: interpreted {ra!r}, compiled {rb!r}",
        )
        return
    if not ra.ok:
        env.reach("both raise")
        return
    env.reach("both")
    env.observe("v", rb.value)
    env.check(ceq(env.canon(ra.value), env.canon(rb.value)), "the readers return different values", lambda: f"{bytes(data).hex()}: interpreted {ra!r}, compiled {rb!r}")
    env.check(na == nb, "the readers consume different numbers of bytes", lambda: f"{bytes(data).hex()}: interpreted {na}, compiled {nb}")
    xa, xb = shape(ra.value, env.lib), shape(rb.value, env.lib)
    env.check(xa == xb, "the readers return values of different types", lambda: f"interpreted {xa}, compiled {xb}")
    sa, sb = sizes(ra.value), sizes(rb.value)
    env.check(sa == sb, "the readers record different sizes", lambda: f"interpreted {sa}, compiled {sb}")


def sizes(v):
    return {k: n for k, n in getattr(v, "_sizes", {}).items() if n}


def equivalent(env, prefix, options, endian, align, compiled, extra, cuts):
    keys, st, cfg, n = pick(env, prefix, options, endian, align, compiled, extra)
    cut = env.choice("cut", cuts)
    n = n - cut if cut < n else 0
    compare(env, st.source(), n, endian, align, data=source(env, keys, st, cfg, n))


def pointers(env, ptr, endian, align):
    keys = env.choice("fields", ["p", "pc", "pv", "pp", "pn", "px2", "dp", "u8+p", "p+u8", "u8+px2+u16", "b3+p", "chz+p+u8", "n1+p"]).split("+")
    st = M.build(keys)
    from spec.model import Cfg

    cfg = Cfg(endian, align, ptr)
    n = min_len(st, cfg) + env.choice("cut", [-1, 0, 1, 20])
    compare(env, st.source(), n, endian, align, ptr)


ODD = [
    # (definition, bytes)
    ("struct I { uint8 a; char b[2]; }; struct T { I x[2]; uint16 y; };", 10),
    ("struct T { uint8 n; struct { uint8 a; uint16 b; } x[n]; uint32 y; };", 10),
    ("struct T { uint8 a[2][2][2]; uint16 y; };", 12),
    ("struct T { uint8 n; uint16 a[n][2]; uint8 z; };", 8),
    ("struct T { uint8 n; uint16 a[2][n]; uint8 z; };", 8),
    ("struct T { char a[2][3]; wchar b[1][2]; };", 10),
    ("struct T { uint8 a; union { uint32 b; uint8 c[3]; }; uint16 d; };", 12),
    ("struct T { uint8 n; uint8 s[n]; uint8 a; uint32 b; uint16 c; };", 16),
    ("struct T { uint8 n; char s[n]; uint16 a; uint8 x; uint16 b:3; uint16 c:4; uint8 y; uint32 z; };", 20),
    ("struct T { uleb128 n; uint8 a; uint16 b; };", 8),
    ("struct T { uint8 a; ileb128 n[2]; uint16 b; };", 8),
    ("struct T { uint8 a:4; uint8 b:4; uint8 c:4; uint16 d:4; uint16 e; uint32 f; };", 12),
    ("struct T { uint8 a:3; uint16 b:4; uint16 c:5; uint16 d; uint16 e; };", 12),
    ("struct T { uint16 a:4; uint8 b; uint16 c:4; uint16 d:4; uint32 e:1; uint64 f; };", 24),
    ("struct T { uint64 a:1; uint64 b:63; uint8 c; uint32 d; };", 16),
    ("enum E : uint16 { A = 1, B = 2 }; struct T { E a:3; E b:13; E d[2]; uint8 z; };", 8),
    ("enum E : int24 { A = 1, B = 2 }; struct T { E a[2]; E b; uint8 z; };", 16),
    ("flag F : uint8 { A, B }; struct T { F a:2; F b:6; uint8 c; F d:2; };", 4),
    ("struct T { char a:3; char b:5; uint8 c; };", 2),
    ("struct T { float16 a; double b; float c[2]; uint8 d; };", 32),
    ("struct T { wchar a; uint8 b; wchar c[2]; };", 10),
    ("struct T { uint8 a; void b; uint32 c; };", 8),
    ("struct T { void b[2]; uint8 a; uint32 c; };", 8),
    ("struct I { }; struct T { uint8 a; I b; uint32 c; };", 8),
    ("struct T { uint8 a[0]; uint32 b[0]; uint8 c; uint16 d; };", 8),
    ("struct T { int128 a; uint8 b; uint128 c[1]; };", 48),
    ("struct T { uint8 n; uint32 a[n - 1]; uint8 c; };", 16),
    ("struct T { uint8 n; uint8 x[n & 1]; uint16 a:3; uint8 b; uint24 c:9; uint24 d:9; uint32 e; };", 20),
    ("#define N 2\nstruct T { uint8 a[N]; uint32 b[N * 2 - 3]; uint16 c[sizeof(uint16)]; };", 16),
    ("typedef uint32 dw; struct T { uint8 a; dw b; dw *c; dw d[2]; };", 40),
    ("struct N { uint8 a; struct { uint16 b; uint8 c; } d; }; struct T { uint8 z; N n; uint64 y; };", 24),
]


def shape(v, lib, depth=0):
    """Names of the types of a value and everything in it; integers of any width are alike."""
    if isinstance(v, lib.Pointer) or depth > 20:
        return type(v).__name__, v.type.__name__
    if isinstance(v, lib.Structure):
        return type(v).__name__, [shape(getattr(v, k), lib, depth + 1) for k in v.__class__.fields]
    if isinstance(v, list):
        return type(v).__name__, [shape(x, lib, depth + 1) for x in v]
    if isinstance(v, (lib.Enum, lib.Flag)) or not values.is_int(v):
        return type(v).__name__
    return "int"


TARGETS = {
    "u8": ("", "uint8"), "u16": ("", "uint16"), "ch": ("", "char"), "u24": ("", "uint24"), "wc": ("", "wchar"), "leb": ("", "uleb128"), "f32": ("", "float"),
    "e8": ("enum E : uint8 { A = 1, B = 2 };", "E"), "s": ("struct N { uint8 a; uint16 b; };", "N"), "dyn": ("struct D { uint8 k; uint8 d[k]; };", "D"),
    "un": ("union U { uint8 a; uint16 b; };", "U"), "fixed": ("typedef uint8 V[2];", "V"), "expr": ("typedef uint8 V[n];", "V"), "null": ("typedef uint8 V[];", "V"),
    "chz": ("typedef char V[];", "V"), "expr16": ("typedef uint16 V[n - 1];", "V"), "outer": ("struct X { uint8 z; };", "X"),
}  # fmt: skip
PLACES = ["uint8 n; V *p;", "uint8 n; V *p[2];", "uint8 n; V *p[n];", "uint8 n; uint16 x; V *p; uint8 y;", "uint8 n; V *p[1][2];", "uint8 n; struct { uint8 n; V *p; } s;", "uint8 n; V **p;", "uint8 n; V *p[];"]


def pointed(env, target, options, endian, align, ptr):
    """What pointer fields point at is the same from both readers."""
    pre, name = TARGETS[target]
    place = env.choice("place", options)
    env.tag = place
    n = env.choice("n", [0, 2] if "expr" in target or "[n]" in place else [1])
    out = []
    data = env.bytes("data", 14)
    env.assume(env.eq(data[0], n))
    for compiled in (False, True):
        cs = env.load(f"{pre} struct T {{ {place.replace('V ', name + ' ')} }};", endian=endian, pointer=ptr, align=align, compiled=compiled)
        stream = env.stream(data)
        r = env.call(cs.T, stream)
        env.assume(r.ok)
        got = r.value.s.p if " s;" in place else r.value.p
        vals = []
        while isinstance(got, list) and got and isinstance(got[0], list):
            got = got[0]
        for q in got[:2] if isinstance(got, list) else [got]:
            # a few places inside the input
            at = env.choice(f"at{len(vals)}", [3, 6] if not vals else [5])
            env.assume(env.eq(q, at))
            d = env.call(q.dereference)
            vals.append((d.ok, env.canon(d.value) if d.ok else d.kind, shape(d.value, env.lib) if d.ok else None))
            if d.ok and "**" in place:
                env.assume(env.eq(d.value, 7))
                d = env.call(d.value.dereference)
                vals.append((d.ok, env.canon(d.value) if d.ok else d.kind, shape(d.value, env.lib) if d.ok else None))
        out.append((vals, stream.tell(), r.value))
    (va, na, ra), (vb, nb, rb) = out
    env.check(na == nb, "dereferencing moves the stream in one reader only")
    env.check(len(va) == len(vb), "number of pointers")
    for (oa, ca, sa), (ob, cb, sb) in zip(va, vb):
        env.check(oa == ob, "only one reader's pointer can be dereferenced", lambda: f"{bytes(data).hex()}: interpreted {ca!r}, compiled {cb!r}")
        env.check(sa == sb and (ceq(ca, cb) if oa else ca == cb), "dereferenced values differ", lambda: f"{bytes(data).hex()}: interpreted {ca!r} {sa}, compiled {cb!r} {sb}")
    env.reach("pointed")


def odd(env, i, endian, align):
    src, n = ODD[i]
    n -= env.choice("cut", [0, 1, 3])
    compare(env, src, max(0, n), endian, align)


def custom(env, endian, align):
    """A type the source generator does not know falls back to the interpreted reader."""
    where = env.choice("where", ["uint8 a; Weird b; uint16 c;", "Weird a;", "uint32 q; Weird a[2]; uint8 b;", "Weird a[]; uint8 c;"])
    out = []
    n = 12
    data = env.bytes("data", n)
    for compiled in (False, True):
        cs = env.lib.cstruct(endian=endian)
        base = env.lib.BaseType
        Weird = type(base)("Weird", (base,), {
            "_read": classmethod(lambda cls, stream, context=None: (stream.read(2), cls.cs.uint8._read(stream, context))[1]),
            "_read_0": classmethod(lambda cls, stream, context=None: cls.cs.uint8._read_0(stream, context)),
        })  # fmt: skip
        cs.add_custom_type("Weird", Weird, 3, 2)
        r = env.call(cs.load, f"struct T {{ {where} }};", compiled=compiled, align=align)
        env.check(r.ok, "loading a definition with a custom type raised", lambda: repr(r))
        env.reach("fallback")
        stream = env.stream(data)
        v = env.call(cs.T, stream)
        out.append((v, stream.tell(), layout(cs.T)))
    (ra, na, la), (rb, nb, lb) = out
    env.check(ra.ok == rb.ok, "only one reader accepts the input", lambda: f"{ra!r} {rb!r}")
    env.check(la == lb, "layouts differ")
    if ra.ok:
        env.check(ceq(env.canon(ra.value), env.canon(rb.value)), "the readers return different values", lambda: f"{ra!r} {rb!r}")
        env.check(na == nb, "the readers consume different numbers of bytes")
        env.check(sizes(ra.value) == sizes(rb.value), "the readers record different sizes")


def jobs(tier, lib):
    quick = tier == "quick"
    modes = [(e, al, True) for e in "<>" for al in (False, True)]
    for j in definition_jobs(equivalent, tier, configs=modes, triples=False, pair_extra=1 if quick else None, large=True, spellings=True,
                             pair_configs=[("<", True, True), (">", False, True)] if quick else None):
        j.params["cuts"] = [0] if j.params["prefix"] not in ("", "u8") else [0, 1, 2]
        yield j
    for i in range(len(ODD)):
        for e in "<>":
            for al in (False, True):
                yield Job(odd, {"i": i, "endian": e, "align": al}, cost=25)
    for p in ("uint16", "uint32", "uint48", "uint64", "uint128", "uint24"):
        for e in "<>":
            for al in (False, True):
                yield Job(pointers, {"ptr": p, "endian": e, "align": al}, cost=25)
    for i, t in enumerate(TARGETS):
        for e, al, p in (("<", False, "uint8"), (">", True, "uint16")):
            if quick and "expr" not in t and i % 2 != al:
                continue
            for k in range(0, len(PLACES), 4):
                yield Job(pointed, {"target": t, "options": PLACES[k : k + 4], "endian": e, "align": al, "ptr": p}, cost=25)
    for e in "<>":
        for al in (False, True):
            yield Job(custom, {"endian": e, "align": al}, cost=25)
    tri = "u8 u16 u64 s24x2 chx3 n1 b3 h4 chz dn".split() if quick else M.TRI
    for e, al, c in [("<", True, True), (">", False, True)] if quick else modes:
        for f in tri:
            for g in tri:
                dyn = sum(k in M.DYN_ALL for k in (f, g))
                if quick and dyn > 1:
                    continue
                opts = [k for k in tri if not (quick and dyn and k in M.DYN_ALL)]
                yield Job(equivalent, {"prefix": f"{f}+{g}", "options": opts, "endian": e, "align": al, "compiled": c, "extra": 1 if quick else 4, "cuts": [0]}, cost=5)
