"""C11: union members are coherent views of one byte buffer."""

from __future__ import annotations

from spec import menu as M
from spec.model import Arr, Cfg, Cur, Enum, Float, Fld, Int, Ptr, RefEOF, RefError, Struct, Wchar, anon_names
from vse.canon import ceq, elseq
from vse.core import b_and, b_or
from vse.run import Job

from .common import CONFIGS, _Zero, canonical, keys_of

WITNESSES = ["parsed", "assigned", "nested", "held", "constructed", "refused", "inside", "whole", "placed"]
BOUNDS = (
    "unions of one and two members (thorough: three) out of every fixed-size fragment of spec/menu.py and of the nested, anonymous and union-in-union definitions of this file, both byte orders, packed and aligned, both readers, "
    "as T and as a member of a structure and of an array; every byte of the union symbolic; one assignment to every member, whole or through nested structures, and two (thorough: three) in a row, "
    "through the union or through references taken before; the assigned value is any value of the member's type (no NaN)"
)
ASSUMPTIONS = [
    "bits that are padding in the assigned member may keep their old value or become zero",
    "bit-fields directly in a union, and dynamic unions, are not covered",
]

A8, A16 = Fld("a", M.U8), Fld("b", M.U16)
DEEP = {
    "struct in struct": [Fld("w", M.U64), Fld("t", Struct(None, [("in_", M.N1), ("x", M.U8)]))],
    "union in union": [Fld("w", M.U32), Fld("n", Struct(None, [("q", M.U16), ("v", M.N1)], union=True))],
    "union in struct": [Fld("s", Struct("US", [("x", M.U8), ("un", M.UP), ("y", M.U8)])), Fld("h", M.U16)],
    "struct in union in struct": [Fld("s", Struct(None, [("x", M.U8), ("v", Struct(None, [("c", M.N1), ("d", M.U32)], union=True))])), Fld("k", Arr(M.U16, 3))],
    "anonymous struct": [Fld("w", M.U32), Fld(None, Struct(None, [("x", M.U8), ("y", M.U16)]))],
    "anonymous struct in struct": [Fld("w", M.U32), Fld("s", Struct(None, [Fld("z", M.U8), Fld(None, Struct(None, [("x", M.U8), ("y", M.U8)]))]))],
    "anonymous in anonymous": [Fld("w", M.U32), Fld(None, Struct(None, [Fld("z", M.U8), Fld(None, Struct(None, [("x", M.U8), ("y", M.U16)], union=True))]))],
    "anonymous with struct": [Fld("w", M.U32), Fld(None, Struct(None, [Fld("z", M.U8), Fld("s", M.N1)]))],
    "two anonymous": [Fld(None, Struct(None, [Fld("a", M.U8), Fld("b", M.U8)])), Fld(None, Struct(None, [Fld("c", M.U16)])), Fld("d", M.U24)],
    "bits": [Fld("w", M.U16), Fld("s", Struct("BS", [Fld("x", M.U8, 3), Fld("y", M.U8, 5), Fld("z", M.U8)]))],
    "wide bits": [Fld("w", M.U32), Fld("s", Struct("BW", [Fld("x", M.U16, 5), Fld("y", M.U16, 6), Fld("z", M.U16, 5), Fld("e", M.E8, 2)]))],
    "same type twice": [Fld("p", M.N1), Fld("q", M.N1), Fld("w", M.U16)],
    "padding": [Fld("w", M.U64), Fld("s", Struct("PD", [("a", M.U8), ("b", M.U32), ("c", M.U8)]))],
    "floats": [Fld("f", M.F32), Fld("i", M.S32), Fld("s", Struct("FS", [("lo", M.U16), ("hi", M.U16)]))],
    "deeper": [Fld("a", Struct("L1", [("b", Struct("L2", [("c", Struct("L3", [("d", M.U8), ("e", M.U8)])), ("f", M.U8)])), ("g", M.U8)])), Fld("w", M.U32)],
    "unions all the way": [Fld("a", Struct("V1", [("b", Struct("V2", [("c", Struct("V3", [("d", M.U16), ("e", M.U8)])), ("f", M.U8)], union=True)), ("g", M.U24)], union=True)), Fld("w", M.U32)],
    "array first": [Fld("s", Arr(M.N1, 2)), Fld("w", M.U64)],
    "matrix first": [Fld("s", Arr(Arr(M.N1, 1), 2)), Fld("w", M.U64)],
    "padding first": [Fld("s", M.N2), Fld("w", M.U64)],
    "bits first": [Fld("s", Arr(Struct("PB", [Fld("x", M.U8, 3), Fld("y", M.U8, 2)]), 2)), Fld("w", M.U16)],
    "array of structs": [Fld("w", M.U64), Fld("s", Arr(M.N1, 2)), Fld("v", M.N1)],
}  # fmt: skip
MEMBERS = (
    "u8 s8 u16 s16 u24 s24 u32 s32 u48 s48 u64 u128 f32 f64 ch wc e8 e16 e24 es g8 g32 p pc u8x3 u16x2 s24x2 u48x2 chx3 wcx2 f32x2 e8x2 px2 "
    "ne n1 n2 n3 nb n1x2 n2x2 nbx2 un up unx2 u8x2x2 chx2x2 n1x2x1 as au ns nu u8x0"
).split()
CORE = "u8 u16 s24 u32 u64 f32 ch e8 p u8x3 s24x2 chx3 n1 n2 n3 nb un u8x2x2 as au nu".split()


def has_wide(ty):
    return isinstance(ty, Wchar) or isinstance(ty, Arr) and has_wide(ty.elem) or isinstance(ty, Struct) and any(has_wide(f.ty) for f in ty.fields)


def units(st, cfg):
    """(field, offset, shift) with shift the position of a bit-field in its unit as an integer."""
    offs = st.layout(cfg)[1]
    unit, left, at = None, 0, None
    for f, off in zip(st.fields, offs):
        if not f.bits:
            unit = None
            yield f, off, None
            continue
        base = f.ty.base if isinstance(f.ty, Enum) else f.ty
        n = base.size(cfg)
        key = getattr(base, "base", base.name)
        if unit != key or left == 0 or off != at:
            unit, left, at = key, 8 * n, off
        yield f, off, (left - f.bits if cfg.big else 8 * n - left)
        left -= f.bits


def leaves(st, cfg, path=(), base=0, own=()):
    """(attribute path, type, mask of its bits in the union as {byte: bits}, field, shift, the structures around it and its own type with their offsets)."""
    for f, off, sh in units(st, cfg):
        p = path if f.name is None else (*path, f.name)
        top = (*own, (f.ty, base + off))
        if f.bits:
            b = f.ty.base if isinstance(f.ty, Enum) else f.ty
            n = b.size(cfg)
            m = (((1 << f.bits) - 1) << sh).to_bytes(n, "big" if cfg.big else "little")
            yield p, f.ty, base + off, {base + off + i: m[i] for i in range(n) if m[i]}, f, sh, top
            continue
        if f.name is not None:
            yield p, f.ty, base + off, {base + off + i: m for i, m in mask_of(f.ty, cfg).items()}, f, None, top
        if isinstance(f.ty, Struct):
            yield from leaves(f.ty, cfg, p, base + off, top)


def mask_of(ty, cfg):
    """The bits of the type's bytes that carry data."""
    cur = Cur(_Zero, [0] * 400)
    ty.read(cur, cfg, {})
    return dict(cur.mask)


def decode(env, st, cfg, els):
    cur = Cur(env, list(els))
    v = anon_names(st.read(cur, cfg, {}))
    canonical(env, cur, els)
    return v


def type_at(t, path):
    for p in path[:-1]:
        t = t.fields[p].type
    return t.fields[path[-1]].type


def put(obj, path, value):
    for p in path[:-1]:
        obj = getattr(obj, p)
    setattr(obj, path[-1], value)


def overlay(old, mask, new):
    """Bytes ``new`` at the bits of ``mask``, ``old`` elsewhere."""
    out = list(old)
    for i, m in mask.items():
        n = new[i]
        out[i] = n if m == 0xFF else join(out[i], n, m)
    return out


def join(a, b, m):
    if type(a) is int and type(b) is int:
        return (a & (0xFF ^ m)) | (b & m)
    import z3

    a, b = (z3.BitVecVal(x, 8) if type(x) is int else x for x in (a, b))
    return z3.simplify((a & (0xFF ^ m)) | (b & m))


def coherent(env, u, st, cfg, cands, label, detail):
    """Every member is what the bytes say, and the dump is those bytes; -> the candidates left."""
    size = st.size(cfg)
    c = anon_names(env.canon(u))
    data = union_mask(st, cfg)
    r = env.call(u.dumps)
    env.check(r.ok, f"dumping {label} raised", lambda: f"{detail()}: {r!r}")
    out = env.els(r.value)
    env.check(len(out) == size, f"length of the dump {label}", lambda: f"{detail()}: {len(out)} != {size}")
    env.observe("dump", r.value)
    alts = []
    for els in cands:
        want = decode(env, st, cfg, els)
        alts.append((ceq(c, want), all_bits(out, els, data)))
    env.check(b_or(*[a for a, _ in alts]), f"members {label}", lambda: f"{detail()}: {u!r}, bytes {[show(env, x) for x in cands]}")
    env.check(b_or(*[b_and(a, b) for a, b in alts]), f"dump {label}", lambda: f"{detail()}: {u!r} dumps {bytes(r.value).hex()}, bytes {[show(env, x) for x in cands]}")


def union_mask(st, cfg):
    out = {}
    for f in st.fields:
        for i, m in mask_of(f.ty, cfg).items():
            out[f.at + i] = out.get(f.at + i, 0) | m
    return out


def all_bits(out, els, mask):
    a, b = [], []
    for i, m in mask.items():
        if m:
            a.append(out[i] if m == 0xFF else join(0, out[i], m))
            b.append(els[i] if m == 0xFF else join(0, els[i], m))
    return elseq(a, b, 8)


def show(env, els):
    return bytes(env.mkbytes(els)).hex()


def definition(env, what, cfg):
    if what in DEEP:
        st = Struct("T", DEEP[what], union=True)
    else:
        st = M.build(keys_of(what), union=True)
    env.tag = what
    return st


def parse(env, options, endian, align, compiled):
    """Every member is parsed from the start of the union's bytes; exactly the union's size is consumed."""
    cfg = Cfg(endian, align)
    st = definition(env, env.choice("members", options), cfg)
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled)
    size = max(f.ty.size(cfg) for f in st.fields)
    if align:
        size += -size % max(f.ty.align(cfg) for f in st.fields)
    env.check(len(cs.T) == size and cs.T.size == size, "size of the union", lambda: f"{len(cs.T)} != {size}")
    data = env.bytes("data", size + 2)
    els = env.els(data)
    s = env.stream(data)
    r = env.call(cs.T, s)
    try:
        decode(env, st, cfg, els[:size])
    except (RefEOF, RefError):
        env.check(not r.ok, "undecodable bytes were accepted", lambda: f"{bytes(data).hex()}: {r!r}")
        return
    env.check(r.ok, "parsing raised", lambda: f"{bytes(data).hex()}: {r!r}")
    env.check(s.tell() == size, "bytes consumed", lambda: f"{s.tell()} != {size}")
    env.observe("value", r.value)
    for f in st.fields:
        if f.name is None:
            continue
        # the member's own type on the union's bytes
        own = env.call(type_at(cs.T, (f.name,)), data[:size])
        env.check(own.ok and env.ceq(anon_names(env.canon(getattr(r.value, f.name))), anon_names(env.canon(own.value))), "a member is not what its own type parses", lambda: f"{bytes(data).hex()}: {f.name} {r.value!r} {own!r}")
        if f.ty.size(cfg) and not has_float(f.ty):
            env.check(env.native_bool(getattr(r.value, f.name) == own.value), "a member does not compare equal to what its own type parses", lambda: f"{bytes(data).hex()}: {f.name}")
            env.check(not env.native_bool(getattr(r.value, f.name) != own.value), "a member is unequal to what its own type parses", lambda: f"{bytes(data).hex()}: {f.name}")
    coherent(env, r.value, st, cfg, [els[:size]], "after parsing", lambda: bytes(data).hex())
    env.check(env.native_bool(r.value == cs.T(data)), "two parses of the same bytes differ")
    env.reach("parsed")


def has_float(ty):
    return isinstance(ty, Float) or isinstance(ty, Arr) and has_float(ty.elem) or isinstance(ty, Struct) and any(has_float(f.ty) for f in ty.fields)


def new_value(env, cs, t, leaf, cfg, name):
    """Any value of the member's type and the bytes that it encodes to (as a dictionary by position)."""
    path, ty, off, mask, f, sh, _top = leaf
    if f.bits:
        b = f.ty.base if isinstance(f.ty, Enum) else f.ty
        v = env.int(name, 0, (1 << f.bits) - 1)
        n = b.size(cfg)
        raw = env.els((v << sh).to_bytes(n, "big" if cfg.big else "little"))
        value = type_at(t, path)(v) if isinstance(f.ty, Enum) else v
        return value, {off + i: raw[i] for i in range(n)}
    data = env.bytes(name, ty.size(cfg))
    els = env.els(data)
    cur = Cur(env, els)
    try:
        ty.read(cur, cfg, {})
    except RefError:
        env.skip("undecodable")
    canonical(env, cur, els)
    if isinstance(ty, Int):
        return env.mkint(int_of(env, els, ty, cfg)), dict(enumerate(els, off))
    return type_at(t, path)(data), dict(enumerate(els, off))


def int_of(env, els, ty, cfg):
    from vse.core import r_from_els

    return r_from_els(els if cfg.big else els[::-1], ty.signed)


def step(env, cs, u, st, cfg, els, leaf, name, hold=None):
    """One assignment; -> the possible bytes afterwards, the most specific first."""
    path, ty, off, mask, f, sh, top = leaf
    value, new = new_value(env, cs, cs.T, leaf, cfg, name)
    r = env.call(put, u, path, value) if hold is None else env.call(setattr, hold, path[-1], value)
    env.check(r.ok, "assigning a value of the member's own type raised", lambda: f"{'.'.join(path)} = {value!r}: {r!r}")
    keep = overlay(els, mask, new)
    env.reach("assigned")
    if len(path) > 1:
        env.reach("nested")
    if isinstance(ty, Struct):
        env.reach("whole")
    return paddings(keep, top, cfg)


def paddings(els, chain, cfg):
    """The members that an assignment goes through may be written as a whole, which makes their padding zero."""
    out = [els]
    for ty, off in chain[::-1]:
        elem = ty
        while isinstance(elem, Arr):
            elem = elem.elem
        if not isinstance(elem, Struct):
            continue
        m = mask_of(ty, cfg)
        for old in list(out):
            new = list(old)
            for i in range(ty.size(cfg)):
                if m.get(i, 0) != 0xFF:
                    new[off + i] = join(0, new[off + i], m.get(i, 0))
            if not any(all(z3eq(a, b) for a, b in zip(new, x)) for x in out):
                out.append(new)
    return out


def z3eq(a, b):
    if type(a) is int or type(b) is int:
        return type(a) is type(b) and a == b
    return a is b or a.eq(b)


def begin(env, cs, st, cfg, how, first):
    """A union and its bytes."""
    size = st.size(cfg)
    if how == "default":
        return cs.T(), [0] * size
    if how == "parsed":
        data = env.bytes("data", size)
        els = env.els(data)
        try:
            decode(env, st, cfg, els)
        except (RefEOF, RefError):
            env.skip("undecodable")
        return cs.T(data), els
    # by value
    leaf = next(x for x in leaves(st, cfg) if x[0] == (first,))
    value, new = new_value(env, cs, cs.T, leaf, cfg, "init")
    els = overlay([0] * size, leaf[3], new)
    env.reach("constructed")
    return (cs.T(**{first: value}) if how == "keyword" else cs.T(value)), els


def assign(env, options, endian, align, compiled, how, steps, held=False):
    cfg = Cfg(endian, align)
    st = definition(env, env.choice("members", options), cfg)
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled)
    ls = [x for x in leaves(st, cfg) if x[1].size(cfg)]
    named = [f.name for f in st.fields if f.name is not None and f.ty.size(cfg)]
    if how in ("keyword", "positional") and not named:
        env.skip("no named member")
    first = (st.fields[0].name if how == "positional" else env.choice("first", named)) if how in ("keyword", "positional") else None
    if how == "positional" and (first is None or isinstance(st.fields[0].ty, Arr)):
        env.skip("first member has no name")
    if not ls:
        env.skip("nothing to assign")
    u, els = begin(env, cs, st, cfg, how, first)
    coherent(env, u, st, cfg, [els], "at the beginning", lambda: how)
    holds = {}
    if held:
        ls = [x for x in ls if len(x[0]) > 1]
        if not ls:
            env.skip("nothing nested")
        for x in ls:
            o = u
            for p in x[0][:-1]:
                o = getattr(o, p)
            holds[x[0]] = o
        env.reach("held")
    done = []
    for i in range(steps):
        leaf = env.choice(f"to{i}", ls)
        done.append(".".join(leaf[0]))
        env.tag = f"{env.tag} {done[-1]}"
        more = step(env, cs, u, st, cfg, els, leaf, f"new{i}", holds.get(leaf[0]))
        try:
            for c in more:
                decode(env, st, cfg, c)
        except (RefEOF, RefError):
            env.skip("undecodable")
        coherent(env, u, st, cfg, more, "after an assignment", lambda: f"{how}, then {done}")
        # whichever bytes the padding has now, they are what the next assignment starts from
        els = env.els(u._buf) if hasattr(u, "_buf") and len(more) > 1 else more[0]
    env.check(env.native_bool(u == u), "a union is not equal to itself")


def refused(env, options, endian, align):
    """A value that does not fit is refused and leaves the union as it was."""
    cfg = Cfg(endian, align)
    st = definition(env, env.choice("members", options), cfg)
    cs = env.load(st.source(), endian=endian, align=align)
    ls = [x for x in leaves(st, cfg) if isinstance(x[1], Int) and not x[4].bits]
    if not ls:
        env.skip("no integer")
    u, els = begin(env, cs, st, cfg, "parsed", None)
    leaf = env.choice("to", ls)
    env.tag = f"{env.tag} {'.'.join(leaf[0])}"
    n = 8 * leaf[1].size(cfg)
    v = env.int("v", 1 << n, (1 << n) + 300)
    r = env.call(put, u, leaf[0], v)
    env.check(not r.ok, "a value that does not fit was accepted", lambda: f"{'.'.join(leaf[0])} = {v}: {u!r}")
    coherent(env, u, st, cfg, paddings(els, leaf[6], cfg), "after a refused assignment", lambda: f"{'.'.join(leaf[0])} = {v}")
    env.reach("refused")


def placed(env, options, endian, align, compiled, types):
    """Members that were added at an offset in the union are parsed, written and assigned there."""
    cfg = Cfg(endian, align)
    st = definition(env, env.choice("members", options), cfg)
    source = {}
    st.decls(source)
    Struct("Zq", [(f"z{t}", PLACED[t]) for t in types]).decls(source)
    cs = env.load(" ".join(source.values()), endian=endian, align=align, compiled=compiled)
    fields = list(st.fields)
    st = Struct("T", fields, union=True)
    base = st.size(cfg)
    for i, t in enumerate(types):
        n = PLACED[t].size(cfg)
        if n > base:
            env.skip("does not fit")
        at = env.choice(f"at{i}", range(0, base - n + 1, PLACED[t].align(cfg) if align else 1))
        cs.T.add_field(f"z{t}", cs.Zq.fields[f"z{t}"].type, offset=at)
        st.fields.append(Fld(f"z{t}", PLACED[t], at=at))
        env.tag = f"{env.tag} {t}@{at}"
    size = st.size(cfg)
    env.check(len(cs.T) == size and cs.T.size == size, "size of the union", lambda: f"{len(cs.T)} != {size}")
    u, els = begin(env, cs, st, cfg, env.choice("how", ["parsed", "default"]), None)
    coherent(env, u, st, cfg, [els], "at the beginning", lambda: env.tag)
    leaf = env.choice("to", [x for x in leaves(st, cfg) if x[1].size(cfg)])
    env.tag = f"{env.tag} {'.'.join(leaf[0])}"
    more = step(env, cs, u, st, cfg, els, leaf, "new")
    try:
        for c in more:
            decode(env, st, cfg, c)
    except (RefEOF, RefError):
        env.skip("undecodable")
    coherent(env, u, st, cfg, more, "after an assignment", lambda: env.tag)
    env.reach("placed")


PLACED = {"u8": M.U8, "u16": M.U16, "u8x2": Arr(M.U8, 2), "n1": M.N1, "ch": M.CH}


def inside(env, options, endian, align, compiled, place):
    """The union is a member of a structure or an element of an array; its neighbours do not change."""
    cfg = Cfg(endian, align)
    un = definition(env, env.choice("members", options), cfg)
    un = Struct("U", un.fields, union=True)
    if place == "member":
        st = Struct("T", [("x", M.U8), ("u", un), ("y", M.U16)])
    else:
        st = Struct("T", [("x", M.U8), ("u", Arr(un, 2)), ("y", M.U8)])
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled)
    size = st.size(cfg)
    data = env.bytes("data", size)
    els = env.els(data)
    try:
        decode(env, st, cfg, els)
    except (RefEOF, RefError):
        env.skip("undecodable")
    t, other = cs.T(data), cs.T(data)
    before = other.dumps()
    env.check(env.ceq(anon_names(env.canon(t)), decode(env, st, cfg, els)), "value", lambda: f"{bytes(data).hex()}: {t!r}")
    ls = [x for x in leaves(un, cfg) if x[1].size(cfg)]
    leaf = env.choice("to", ls)
    env.tag = f"{env.tag} {'.'.join(leaf[0])}"
    at = st.layout(cfg)[1][1]
    u = t.u
    if place != "member":
        k = env.choice("element", [0, 1])
        at += k * un.size(cfg)
        u = u[k]
    value, new = new_value(env, cs, cs.U, leaf, cfg, "new")
    r = env.call(put, u, leaf[0], value)
    env.check(r.ok, "assigning a value of the member's own type raised", lambda: f"{'.'.join(leaf[0])} = {value!r}: {r!r}")
    keep = overlay(els, {at + i: m for i, m in leaf[3].items()}, {at + i: e for i, e in new.items()})
    cands = paddings(keep, [(ty, at + off) for ty, off in leaf[6]], cfg)
    try:
        for c in cands:
            decode(env, st, cfg, c)
    except (RefEOF, RefError):
        env.skip("undecodable")
    c = anon_names(env.canon(t))
    out = t.dumps()
    data_bits = mask_of(st, cfg)
    env.check(len(out) == size, "length of the dump", lambda: f"{len(out)} != {size}")
    oe = env.els(out)
    alts = [b_and(ceq(c, decode(env, st, cfg, x)), all_bits(oe, x, data_bits)) for x in cands]
    env.check(b_or(*alts), "structure after an assignment to its union", lambda: f"{bytes(data).hex()}, {'.'.join(leaf[0])} = {value!r}: {t!r} dumps {bytes(out).hex()}")
    env.check(env.same(other.dumps(), before), "another instance changed")
    env.reach("inside")


def jobs(tier, lib):
    quick = tier == "quick"
    deep = list(DEEP)
    core = CORE if quick else MEMBERS
    for e, al, c in CONFIGS:
        cfg = {"endian": e, "align": al, "compiled": c}
        if c and quick:
            yield Job(parse, {"options": [f"{a}+{b}" for a, b in zip(core, core[1:] + core[:1])] + deep, **cfg}, cost=20)
            continue
        for i in range(0, len(MEMBERS), 8):
            yield Job(parse, {"options": MEMBERS[i : i + 8], **cfg}, cost=20)
        yield Job(parse, {"options": deep, **cfg}, cost=20)
        for a in core:
            yield Job(parse, {"options": [f"{a}+{b}" for b in core if a != b], **cfg}, cost=20)
    for e, al, c in CONFIGS:
        if c and quick:
            continue
        cfg = {"endian": e, "align": al, "compiled": c}
        for how in ("parsed", "default", "keyword", "positional"):
            yield Job(assign, {"options": deep, **cfg, "how": how, "steps": 1}, cost=20)
        ms = [k for k in MEMBERS if not quick or k not in ("g8", "g32", "e8x2")]
        for i in range(0, len(ms), 8):
            yield Job(assign, {"options": ms[i : i + 8], **cfg, "how": "parsed", "steps": 1}, cost=20)
        for a in core if not quick or e == "<" or al else CORE[:8]:
            yield Job(assign, {"options": [f"{a}+{b}" for b in core if a != b], **cfg, "how": "parsed", "steps": 1}, cost=30)
        some = quick and (e == "<") == al
        for d in deep if not some else ():
            yield Job(assign, {"options": [d], **cfg, "how": "parsed", "steps": 2}, cost=20)
            if not quick:
                yield Job(assign, {"options": [d], **cfg, "how": "parsed", "steps": 3}, cost=20)
            yield Job(assign, {"options": [d], **cfg, "how": "parsed" if quick and e == "<" else "default", "steps": 2 if quick else 3, "held": True}, cost=20)
        yield Job(refused, {"options": deep + core, "endian": e, "align": al}, cost=20)
        if not c or not quick:
            for i, t in enumerate((("u8",), ("u16",), ("n1",), ("u8x2", "ch"))):
                yield Job(placed, {"options": (["u32", "u8x3", "n2", "nb", "u8+u16"] if quick else [*core, "u8+u16"]) + (["anonymous struct", "bits"] if i < 2 or not quick else []), **cfg, "types": t}, cost=20)
        for place in ("member", "array") if not some else ():
            for i in range(0, len(deep), 4):
                yield Job(inside, {"options": deep[i : i + 4], **cfg, "place": place}, cost=20)
            yield Job(inside, {"options": core, **cfg, "place": place}, cost=20)


_ = (A8, A16, Ptr)
