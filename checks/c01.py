"""C01: parsing dumps(v) gives v back and consumes exactly the dumped bytes; numbers that do not fit are rejected."""

from __future__ import annotations

from spec import menu as M
from spec.model import NULL, Arr, Cfg, Char, Cur, Enum, Float, Int, Leb, Ptr, Struct, Void, Wchar
from vse.canon import ceq
from vse.core import b_and, b_le, b_not, b_or
from vse.run import Job

from .common import CONFIGS, canonical, definition_jobs, pick, source, straddles

WITNESSES = ["parsed", "reparsed", "constructed", "fits", "rejected"]
BOUNDS = (
    "values obtained by parsing: definitions with a part of 16 to 256 bytes or elements (LARGE of spec/menu.py), of which the bytes at PROBES are symbolic and the rest fixed; every fragment of spec/menu.py alone and after a uint8, all ordered pairs of core fragments (thorough: triples), "
    "byte orders < and > (fragments alone also !, =, @), packed and aligned, interpreted and compiled, all input bytes symbolic at the minimal length plus 3 (thorough 6) for variable-length "
    "definitions; values constructed directly: every fixed-size or null-terminated fragment with symbolic field values over the type's full range; "
    "numbers: every integer, enum, flag and pointer type with integers up to 4x its range on both sides"
)
ASSUMPTIONS = ["canonical encodings: inputs with NaN floats are excluded (NaN is not equal to itself)"]


def parsed(env, prefix, options, endian, align, compiled, extra):
    """Values obtained by parsing arbitrary bytes."""
    keys, st, cfg, n = pick(env, prefix, options, endian, align, compiled, extra)
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled)
    data = source(env, keys, st, cfg, n)
    r = env.call(cs.T, data)
    if not r.ok:
        return
    env.reach("parsed")
    src = env.els(data)
    cur = Cur(env, src)
    st.read(cur, cfg)
    cur.leb = []
    canonical(env, cur, src)
    eof = any(k in M.EOF_KEYS for k in keys)
    again(env, cs, keys, r.value, known=[("aligned-eof-array", eof and align and cur.unpadded != cur.pos)])


def again(env, cs, keys, v, want=None, known=()):
    out = env.call(v.dumps)
    env.check(out.ok, "dumping a value raised", lambda: repr(out))
    d = out.value
    # bytes after the dump must not matter, except where the definition reads to the end of input
    tail = b"" if any(k in M.EOF_KEYS for k in keys) else b"\xa5\x5a\xff"
    stream = env.stream(d + tail)
    r2 = env.call(cs.T, stream)
    env.check(r2.ok, "parsing a dump raised", lambda: f"{bytes(d).hex()}: {r2!r}", known)
    if not r2.ok:
        return
    env.observe("dump", d)
    env.observe("again", r2.value)
    a, b = want if want is not None else env.canon(v), env.canon(r2.value)
    env.check(ceq(a, b), "parsing a dump gives another value", lambda: f"{v!r} -> {bytes(d).hex()} -> {r2.value!r}", known)
    env.check(stream.tell() == len(d), "parsing a dump consumes another number of bytes", lambda: f"{stream.tell()} != {len(d)}", known)
    env.reach("reparsed")


def value(env, cs, ty, name, cfg, bits=None):
    """-> (value to construct with, its canonical form) with symbolic contents."""
    if bits:
        x = env.int(name, 0, (1 << bits) - 1)
        if isinstance(ty, Enum):
            return getattr(cs, ty.name)(x), ("e", ty.name, env.raw(x))
        return x, ("i", env.raw(x))
    if isinstance(ty, Int):
        x = env.int(name, *ty.lim())
        return x, ("i", env.raw(x))
    if isinstance(ty, Leb):
        x = env.int(name, -(1 << 16) if ty.signed else 0, (1 << 16) - 1)
        return x, ("i", env.raw(x))
    if isinstance(ty, Enum):
        lo, hi = ty.base.lim()
        x = env.int(name, lo, hi)
        return getattr(cs, ty.name)(x), ("e", ty.name, env.raw(x))
    if isinstance(ty, Ptr):
        x = env.int(name, 0, (1 << 64) - 1)
        return x, ("p", env.raw(x))
    if isinstance(ty, Char):
        b = env.bytes(name, 1)
        return b, ("b", tuple(env.els(b)))
    if isinstance(ty, Wchar):
        s = env.wtext(name, 1)
        return s, ("s", tuple(env.codes(s)))
    if isinstance(ty, Void) or isinstance(ty, Float):
        return None, ty.default(cfg)
    if isinstance(ty, Arr):
        null = ty.n == NULL
        n = env.choice(name + "#", [0, 1, 2]) if null else ty.n
        if isinstance(ty.elem, Char):
            b = env.bytes(name, n)
            if null:
                for e in env.els(b):
                    env.assume(env.no(env.eq(env.mkint_el(e), 0)))
            return b, ("b", tuple(env.els(b)))
        if isinstance(ty.elem, Wchar):
            s = env.wtext(name, n)
            if null:
                for c in env.codes(s):
                    env.assume(env.no(env.eq(env.mkint_code(c), 0)))
            return s, ("s", tuple(env.codes(s)))
        vs = [value(env, cs, ty.elem, f"{name}.{i}", cfg) for i in range(n)]
        if null:
            for _, c in vs:
                env.assume(env.no(ty.elem.iszero(c)))
        return [v for v, _ in vs], ("l", tuple(c for _, c in vs))
    if isinstance(ty, Struct):
        if ty.union:
            first = ty.fields[0]
            v, c = value(env, cs, first.ty, f"{name}.{first.name}", cfg)
            u = getattr(cs, ty.name)(**{first.name: v})
            return u, env.canon(u)
        kw, cc = {}, []
        for f in ty.fields:
            v, c = value(env, cs, f.ty, f"{name}.{f.name}", cfg, f.bits)
            if v is not None:
                kw[f.name] = v
            cc.append((f.name, c))
        return getattr(cs, ty.name)(**kw), ("st", ty.name, tuple(cc))
    raise AssertionError(ty)


def constructed(env, keys, prefix, endian, align, compiled):
    """Values built directly, with every field value symbolic."""
    k = env.choice("fields", keys)
    env.tag = k
    st = M.build([x for x in (prefix, k) if x])
    cfg = Cfg(endian, align)
    if straddles(st, cfg):
        env.skip("bit-fields straddle their unit")
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled)
    r = env.call(value, env, cs, st, "v", cfg)
    env.check(r.ok, "constructing a value raised", lambda: repr(r))
    v, c = r.value
    env.reach("constructed")
    again(env, cs, [k], v, c)


NUM = [
    M.U8, M.S8, M.U16, M.S16, M.U24, M.S24, M.U32, M.S32, M.U48, M.S48, M.U64, M.S64, M.U128, M.S128,
    M.E8, M.E16, M.E24, M.ES, M.G8, M.G32, Ptr(M.U8),
]  # fmt: skip


def fits(env, i, endian, form, ptr):
    """An integer is written exactly or rejected."""
    ty = NUM[i]
    if isinstance(ty, Ptr):
        w = Int(ptr)
    else:
        w = ty.base if isinstance(ty, Enum) else ty
    lo, hi = w.lim()
    flag = isinstance(ty, Enum) and ty.kind == "flag"
    decl = ty.declare("x" + {"array": "[2]", "null": "[]", "dyn": "[n]"}.get(form, ""))
    out = {}
    ty.decls(out)
    src = "\n".join(out.values()) + f" struct T {{ uint8 n; {decl}; uint8 z; }};"
    cs = env.load(src, endian=endian, pointer=ptr, compiled=False)
    x = env.int("x", 0 if flag else min(lo, -1) * 4, hi * 4 + 3)
    rx = env.raw(x)
    inside = b_and(b_le(lo, rx), b_le(rx, hi))
    e = x
    if isinstance(ty, Enum) and form in ("scalar", "type"):
        r = env.call(getattr(cs, ty.name), x)
        env.check(b_or(r.ok, b_not(inside)), "constructing an enum value raised", lambda: repr(r))
        if not r.ok:
            return
        e = r.value
    if form == "type":
        t = cs.T.fields["x"].type
        r = env.call(t.dumps, e)
    elif form == "scalar":
        r = env.call(lambda: cs.T(n=1, x=e, z=7).dumps())
    elif form == "array":
        r = env.call(lambda: cs.T(n=1, x=[e, 1], z=7).dumps())
    elif form == "dyn":
        r = env.call(lambda: cs.T(n=1, x=[e], z=7).dumps())
    else:
        env.assume(env.no(env.eq(x, 0)))
        r = env.call(lambda: cs.T(n=1, x=[e], z=7).dumps())
    if not r.ok:
        env.reach("rejected")
        env.check(b_not(inside), "a number that fits is rejected", lambda: f"{x}: {r!r}")
        return
    env.reach("fits")
    env.check(inside, "a number that does not fit is written", lambda: f"{x} -> {bytes(r.value).hex()}")
    off = 0 if form == "type" else 1
    els = env.els(r.value)[off : off + w.n]
    env.observe("dump", r.value)
    c = Cur(env, els)
    env.check(env.eq(env.mkint(Int.read(w, c, Cfg(endian), None)[1]), x), "a number is altered", lambda: f"{x} -> {bytes(r.value).hex()}")


def jobs(tier, lib):
    pc = [("<", False, True), (">", True, True), ("<", True, False), (">", False, False)] if tier == "quick" else None
    yield from definition_jobs(parsed, tier, large=True, spellings=True, pair_configs=pc)
    ks = [k for k in M.FIXED_ALL + M.BITS_ALL + M.SBITS if k not in ("as", "au", "ns", "nu", "pv", "g8x2") and not k.startswith("void") and not k.startswith("f")]
    ks = [k for k in ks if k not in ("sb3", "sh7", "sw9", "sb8", "sh16", "s_s", "e8x2x2", "unx2")] + ["ul", "sl", "ulx2", "u8z", "u16z", "s24z", "chz", "wcz", "e8z", "esz", "ulz", "slz", "n1z"]
    for e, al, c in CONFIGS:
        for pre in ("", "b3"):
            if c if pre else c != (e == ">"):
                continue
            for i in range(0, len(ks), 8):
                yield Job(constructed, {"keys": ks[i : i + 8], "prefix": pre, "endian": e, "align": al, "compiled": c}, cost=20)
    for i, ty in enumerate(NUM):
        for e in "<>":
            for form in ("type", "scalar", "array", "dyn", "null"):
                if form in ("null", "array", "dyn") and isinstance(ty, Enum) and ty.kind == "flag":
                    continue
                if form == "null" and isinstance(ty, Ptr):
                    continue
                for ptr in ("uint64", "uint32", "uint16", "uint48") if isinstance(ty, Ptr) else ("uint64",):
                    yield Job(fits, {"i": i, "endian": e, "form": form, "ptr": ptr})


_ = Arr
