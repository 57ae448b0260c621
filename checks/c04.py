"""C04: layout follows C rules; declared size equals bytes read and written."""

from __future__ import annotations

from spec import abi
from spec import menu as M
from spec.model import INTS, Cfg, Cur, RefError, Struct
from spec.types import ALIASES, SCALARS, SIZES
from vse.run import Job

from .common import CONFIGS, keys_of, large_jobs, pick, source, straddles, usable

WITNESSES = ["symbolic", "concrete", "abi", "parsed", "dynamic"]
BOUNDS = (
    "symbolic layouts: 22 declaration shapes (up to 8 members, nested structures, unions, anonymous members, arrays with constant or symbolic count 0..3, pointers, "
    "sizeof) over types with symbolic size 0..4096 and symbolic alignment 1..64 (powers of two); built-in layouts: every fixed-size fragment, all ordered pairs of fixed-size "
    "fragments and triples of core fragments, packed and aligned, pointer widths 2,4,6,8,16 bytes; reading and writing (also of definitions with a part of 16 to 256 bytes, symbolic at PROBES): symbolic input bytes of the declared size plus 3; alignment and offsets of every variable-length fragment, of pairs with core fragments, and around them"
)

# member: (type, name, dims) with type a letter (custom type), "*" + letter (pointer), a nested (kind, members) or ("ref", name)
SHAPES = {
    "two": [("A", "a", []), ("B", "b", [])],
    "four": [("A", "a", []), ("B", "b", []), ("C", "c", []), ("D", "d", [])],
    "eight": [(t, t.lower(), []) for t in "ABCDEFGH"],
    "repeat": [("A", "a", []), ("B", "b", []), ("A", "c", []), ("B", "d", []), ("A", "e", [])],
    "arrays": [("A", "a", [3]), ("B", "b", []), ("C", "c", [2, 2]), ("A", "d", [])],
    "empty array": [("A", "a", []), ("B", "b", [0]), ("C", "c", [])],
    "const array": [("A", "a", ["N"]), ("B", "b", ["K"]), ("C", "c", [])],
    "expr array": [("A", "a", ["N * 2 + 1"]), ("B", "b", [])],
    "const 2d": [("A", "a", ["N", 2]), ("B", "b", [3, "K"]), ("C", "c", [])],
    "nested": [("A", "a", []), (("struct", [("B", "b", []), ("C", "c", [])]), "n", []), ("D", "d", [])],
    "nested array": [("A", "a", []), (("ref", "N"), "n", [2]), ("D", "d", [])],
    "nested first": [(("ref", "N"), "n", []), ("A", "a", []), (("ref", "N"), "m", [1, 3])],
    "deep": [("A", "a", []), (("struct", [("B", "b", []), (("struct", [("C", "c", []), ("A", "z", [2])]), "m", [])]), "n", []), ("D", "d", [])],
    "anonymous": [("A", "a", []), (("struct", [("B", "b", []), ("C", "c", [])]), None, []), ("D", "d", [])],
    "anonymous union": [("A", "a", []), (("union", [("B", "b", [2]), ("C", "c", [])]), None, []), ("D", "d", [])],
    "union member": [("A", "a", []), (("union", [("B", "b", []), ("C", "c", []), ("D", "d", [3])]), "u", []), ("E", "e", [])],
    "union array": [("A", "a", []), (("ref", "U"), "u", [2]), ("E", "e", [])],
    "union of structs": [(("union", [(("struct", [("A", "a", []), ("B", "b", [])]), "s", []), ("C", "c", [])]), "u", []), ("D", "d", [])],
    "pointer": [("A", "a", []), ("*B", "b", []), ("C", "c", []), ("*A", "d", [2])],
    "pointer to struct": [("A", "a", []), ("*N", "b", []), ("C", "c", [])],
    "sizeof": [("A", "a", []), ("B", "b", ["sizeof(A)"]), ("C", "c", [])],
    "sizeof struct": [("A", "a", []), ("B", "b", ["sizeof(M) + 1"]), ("C", "c", [])],
}
REFS = {"M": ("struct", [("F", "f", []), ("G", "g", [])]), "N": ("struct", [("D", "d", []), ("E", "e", [])]), "U": ("union", [("B", "b", []), ("C", "c", [2])])}


def text(members, top):
    out = []
    for t, name, dims in members:
        dim = "".join(f"[{d}]" for d in dims)
        if type(t) is tuple and t[0] != "ref":
            out.append(f"{t[0]} {{ {text(t[1], False)} }}{' ' + name if name else ''}{dim};")
        else:
            t = t[1] if type(t) is tuple else t
            star = "*" if t[0] == "*" else ""
            out.append(f"{t.lstrip('*')} {star}{name}{dim};")
    return " ".join(out)


def symbolic(env, shape, align):
    cs = env.lib.cstruct()
    members = SHAPES[shape]
    base = env.lib.BaseType
    size, al = {}, {}
    src = text(members, True)
    refs = [r for r in REFS if any(m[0] in (("ref", r), "*" + r) for m in members) or f"sizeof({r})" in src]
    letters = sorted({c for c in "ABCDEFGH" if any(c in x for x in [repr(members)] + [repr(REFS[r]) for r in refs])})
    for c in letters:
        size[c] = env.int(f"size{c}", 0, 2 if f"sizeof({c})" in src or "M" in refs and c in "FG" else 4096)
        al[c] = 1 << env.int(f"align{c}", 0, 1 if "M" in refs and c in "FG" else 6)
        cs.add_custom_type(c, base, size[c], al[c])
    ps, pa = env.int("sizeP", 1, 64), 1 << env.int("alignP", 0, 6)
    cs.add_custom_type("PTR", cs.uint64, ps, pa)
    cs.pointer = cs.PTR
    consts = {"N": env.int("N", 0, 3), "K": env.int("K", 0, 2)} if "const" in shape or "expr" in shape else {}
    cs.consts.update(consts)
    defs = "".join(f"{REFS[r][0]} {r} {{ {text(REFS[r][1], False)} }};\n" for r in refs)
    defs += f"struct T {{ {src} }};\nunion V {{ {src} }};\n"
    env.note(defs)
    r = env.call(cs.load, defs, align=align, compiled=False)
    env.check(r.ok, "loading the definition raised", lambda: repr(r))
    ctx = (env, cs, size, al, (ps, pa), consts, align)
    for name in (*refs, "T", "V"):
        cls = getattr(cs, name)
        verify(ctx, cls, REFS[name] if name in REFS else ("struct" if name == "T" else "union", members), name)
    for name in ("T", "V"):
        e = env.lib.Expression(cs, f"sizeof({name}) * 2 + 1").evaluate()
        env.check(e == getattr(cs, name).size * 2 + 1, "sizeof differs from the size", lambda: f"{name}: {e} != {getattr(cs, name).size * 2 + 1}")
    env.observe("size", cs.T.size)
    env.reach("symbolic")


def up(n, a):
    """The next multiple of ``a`` (a power of two; see ``lemma``)."""
    return n + (-n & (a - 1))


def lemma(env):
    """``up`` is the next multiple: what the layout checks compare with."""
    n, a = env.int("n", 0, 1 << 20), 1 << env.int("k", 0, 6)
    u = up(n, a)
    env.check(env.both(u >= n, u - n < a), "not the nearest")
    env.check((u & (a - 1)) == 0, "not a multiple")


def verify(ctx, cls, decl, name):
    """The layout of ``cls`` is the one C gives the declaration. -> (size, alignment)"""
    env, cs, size, al, (ps, pa), consts, align = ctx
    kind, members = decl
    end, aligns, maxend = 0, [1], []
    env.check(len(cls.__fields__) == len(members), "number of fields", lambda: name)
    for (t, fname, dims), f in zip(members, cls.__fields__):
        ft = f.type
        counts = []
        for d in dims:
            n = d
            if type(d) is str:
                n = {"N": consts.get("N"), "K": consts.get("K")}.get(d)
                if n is None:
                    n = consts["N"] * 2 + 1 if d.startswith("N") else size["A"] if d == "sizeof(A)" else cs.M.size + 1
            counts.append(n)
            env.check(ft.num_entries == n, "array length differs", lambda: f"{name}.{fname}")
            ft = ft.type
        if type(t) is tuple:
            s, a = verify(ctx, ft, REFS[t[1]] if t[0] == "ref" else t, f"{name}.{fname}")
        elif t[0] == "*":
            s, a = ps, pa
        else:
            s, a = size[t], al[t]
        total = s
        for n in reversed(counts):
            total = total * n
        env.check(f.type.size == total, "size of a member", lambda: f"{name}.{fname}: {f.type.size} != {total}")
        env.check(f.type.alignment == a, "alignment of a member's type", lambda: f"{name}.{fname}: {f.type.alignment} != {a}")
        env.check(f.alignment == a, "alignment of a member", lambda: f"{name}.{fname}: {f.alignment} != {a}")
        aligns.append(a)
        off = f.offset
        if kind == "union":
            env.check(env.either(off is None, off == 0) if off is None else off == 0, "offset of a union member", lambda: f"{name}.{fname}: {off}")
            maxend.append(total)
            continue
        if align:
            env.check(off == up(end, a), "offset is not the next multiple of the alignment", lambda: f"{name}.{fname}: offset {off} after {end}, alignment {a}")
        else:
            env.check(off == end, "packed fields are not back to back", lambda: f"{name}.{fname}: offset {off} after {end}")
        end = off + total
    s, a = cls.size, cls.alignment
    top = aligns[0]
    for x in aligns[1:]:
        top = env.max(top, x)
    env.check(a == top, "alignment is not the largest member's", lambda: f"{name}: {a} {aligns}")
    if kind == "union":
        big = 0
        for m in maxend:
            big = env.max(m, big)
        env.check(s == (up(big, top) if align else big), "union size is not its largest member's, padded", lambda: f"{name}: {s} {maxend}")
    elif align:
        env.check(s == up(end, a), "size is not the padded end", lambda: f"{name}: {s}, end {end}, alignment {a}")
    else:
        env.check(s == end, "size is not the end of the last field", lambda: f"{name}: {s} != {end}")
    return s, a


def concrete(env, cs, st, cfg):
    """Declared layout of built-in types against the reference and, where C has the types, the machine's ABI."""
    T = cs.T
    size, offs = st.layout(cfg)
    al = st.align(cfg)
    env.check(T.size == size, "size", lambda: f"{T.size} != {size}")
    env.check(T.alignment == al, "alignment", lambda: f"{T.alignment} != {al}")
    env.check(len(T) == size, "len(T)")
    env.check(T.dynamic is False, "a fixed-size type is called dynamic")
    got = [f.offset for f in T.__fields__]
    want = [None if f.bits else o for f, o in zip(st.fields, offs)]
    env.check(all(w is None or g == w for g, w in zip(got, want)), "offsets", lambda: f"{got} != {want}")
    cs.load("struct SZ { uint8 x[sizeof(T)]; uint8 y[sizeof(T) + 1]; };", compiled=False)
    env.check(len(cs.SZ) == 2 * size + 1, "sizeof(T)", lambda: f"{len(cs.SZ)} != {2 * size + 1}")
    try:
        cl = abi.layout(st, cfg)
    except abi.NoABI:
        return size
    env.reach("abi")
    env.check(cl[0] == T.size and (not cfg.align or cl[1] == T.alignment) and cl[2] == got, "layout differs from the C ABI", lambda: f"{cl} != {T.size} {T.alignment} {got}")
    return size


def builtin(env, prefix, options, endian, align, compiled, ptr):
    """Layout, and symbolic bytes through the reader and the writer."""
    keys = keys_of(prefix, env.choice("fields", options))
    st = M.build(keys)
    cfg = Cfg(endian, align, ptr)
    env.tag = "+".join(keys)
    if straddles(st, cfg):
        env.skip("bit-fields straddle their unit")
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled, pointer=ptr)
    size = concrete(env, cs, st, cfg)
    env.reach("concrete")
    data = source(env, keys, st, cfg, size) + bytes(3) if keys[0] in M.LARGE else env.bytes("data", size + 3)
    stream = env.stream(data)
    r = env.call(cs.T, stream)
    if not r.ok:
        # only invalid UTF-16 may be refused
        try:
            st.read(Cur(env, env.els(data)), cfg)
        except RefError:
            return
        env.fail("parsing enough bytes raised", lambda: repr(r))
    env.reach("parsed")
    env.check(stream.tell() == size, "bytes consumed differ from the declared size", lambda: f"{stream.tell()} != {size}")
    out = env.call(r.value.dumps)
    env.check(out.ok, "dumping raised", lambda: repr(out))
    env.check(len(out.value) == size, "bytes written differ from the declared size", lambda: f"{len(out.value)} != {size}")
    env.check(len(r.value) == size, "len(value) differs from the declared size")
    w = env.stream(b"")
    r.value.write(w)
    env.check(w.tell() == size, "bytes written to a stream differ from the declared size", lambda: f"{w.tell()} != {size}")
    # the same as an array element and behind an offset
    cs.load("struct A2 { uint8 p; T t[2]; uint8 q; };", align=align, compiled=compiled)
    inner = Struct("A2", [("p", M.U8), ("t", M.Arr(st, 2)), ("q", M.U8)])
    sz, _ = inner.layout(cfg)
    env.check(len(cs.A2) == sz, "size of a structure holding an array of it", lambda: f"{len(cs.A2)} != {sz}")
    env.check([f.offset for f in cs.A2.__fields__] == inner.layout(cfg)[1], "offsets around an array of it")


def dynamic(env, prefix, options, align, compiled):
    """Declared layout of variable-length definitions: no size, but an alignment, and offsets up to the first variable-length member."""
    for opt in options:
        keys = keys_of(prefix, opt)
        if not usable(keys):
            continue
        st = M.build(keys)
        cfg = Cfg("<", align)
        if straddles(st, cfg):
            continue
        cs = env.load(st.source(), align=align, compiled=compiled)
        size, offs = st.layout(cfg)
        if size is not None:
            continue
        T = cs.T
        name = "+".join(keys)
        env.check(T.size is None and T.dynamic is True, "a variable-length type has a size", lambda: f"{name}: {T.size}")
        env.check(T.alignment == st.align(cfg), "alignment", lambda: f"{name}: {T.alignment} != {st.align(cfg)}")
        got = [f.offset for f in T.__fields__]
        want = [None if f.bits else o for f, o in zip(st.fields, offs)]
        env.check(all(g == w for g, w, f in zip(got, want, st.fields) if not f.bits), "offsets", lambda: f"{name}: {got} != {want}")
        cs.load("struct O { uint8 a; T t; uint16 b; }; struct P { uint8 a; T t[2]; }; union Q { uint8 a; T t; };", align=align, compiled=compiled)
        for cls, o in ((cs.O, Struct("O", [("a", M.U8), ("t", st), ("b", M.U16)])), (cs.P, Struct("P", [("a", M.U8), ("t", M.Arr(st, 2))]))):
            env.check(cls.size is None and cls.dynamic is True, "a structure with a variable-length member has a size", lambda: f"{name}: {cls.size}")
            env.check(cls.alignment == o.align(cfg), "alignment of a structure holding it", lambda: f"{name}: {cls.alignment} != {o.align(cfg)}")
            env.check([f.offset for f in cls.__fields__] == o.layout(cfg)[1], "offsets around it", lambda: f"{name}: {[f.offset for f in cls.__fields__]} != {o.layout(cfg)[1]}")
        env.check(cs.Q.size is None and cs.Q.alignment == max(1, st.align(cfg)), "a union with a variable-length member", lambda: f"{name}: {cs.Q.size} {cs.Q.alignment}")
        env.check(not env.call(len, T).ok, "len() of a variable-length type", lambda: name)
    env.reach("dynamic")


def layouts(env, prefix, endian, align, ptr):
    """Declared layout only, for many definitions."""
    for opt in TRIPLE:
        keys = keys_of(prefix, opt)
        st = M.build(keys)
        cfg = Cfg(endian, align, ptr)
        if straddles(st, cfg):
            continue
        cs = env.load(st.source(), align=align, compiled=False, pointer=ptr)
        concrete(env, cs, st, cfg)
    env.reach("concrete")


def table(env, align):
    """Size and alignment of every built-in name."""
    for name in [*SCALARS, *ALIASES]:
        size, al = SIZES[ALIASES.get(name, name)]
        cs = env.lib.cstruct()
        t = cs.resolve(name)
        env.check(t.size == size, "size of a built-in type", lambda: f"{name}: {t.size} != {size}")
        env.check((t.alignment or 1) == al, "alignment of a built-in type", lambda: f"{name}: {t.alignment} != {al}")
        cs.load(f"struct T {{ uint8 a; {name} b; }};", align=align, compiled=False)
        off = al if align else 1
        env.check(cs.T.__fields__[1].offset == off, "offset behind a byte", lambda: f"{name}: {cs.T.__fields__[1].offset} != {off}")
        if size is None:
            env.check(cs.T.size is None and cs.T.dynamic is True, "a variable-size type has a size", lambda: name)
            continue
        end = off + size
        end += -end % al if align else 0
        env.check(len(cs.T) == end, "size behind a byte", lambda: f"{name}: {len(cs.T)} != {end}")
        cs.load(f"struct S {{ uint8 x[sizeof({name})]; }};", compiled=False) if len(name.split()) == 1 else None
        if len(name.split()) == 1:
            env.check(len(cs.S) == size, "sizeof", lambda: f"{name}: {len(cs.S)} != {size}")
    env.reach("concrete")


FIXED = [k for k in M.FIXED_ALL + M.BITS_ALL]
TRIPLE = "u8 u16 u24 u32 s48 u64 u128 f32 f64 ch wc e16 p u8x3 s24x2 u32x2 chx3 n1 n2 un up as au nu u8x2x2 b3 h4 w31 tb5 b35 void u64".split()


def jobs(tier, lib):
    quick = tier == "quick"
    yield Job(lemma, {})
    for shape in SHAPES:
        for align in (False, True):
            yield Job(symbolic, {"shape": shape, "align": align}, cost=40)
    for align in (False, True):
        yield Job(table, {"align": align}, cost=30)
        for c in (False, True):
            var = M.DYN_ALL + M.EOF_ALL
            yield Job(dynamic, {"prefix": "", "options": var, "align": align, "compiled": c}, cost=30)
            for f in M.CORE + M.CORE_BITS + M.CORE_DYN:
                yield Job(dynamic, {"prefix": f, "options": var, "align": align, "compiled": c}, cost=10)
            for f in M.CORE_DYN:
                yield Job(dynamic, {"prefix": f, "options": M.CORE + M.CORE_BITS, "align": align, "compiled": c}, cost=10)
    fixed = [k for k in M.LARGE if M.build([k]).size(Cfg()) is not None]
    for j in large_jobs(builtin, tier, keys=fixed, configs=CONFIGS, params=lambda e, al, c: {"endian": e, "align": al, "compiled": c, "ptr": "uint64"}):
        yield j
    ptrs = ("uint64", "uint32", "uint16", "uint48", "uint128")
    for e, al, c in CONFIGS:
        for i in range(0, len(FIXED), 8):
            yield Job(builtin, {"prefix": "", "options": FIXED[i : i + 8], "endian": e, "align": al, "compiled": c, "ptr": "uint64"}, cost=20)
    for al in (False, True):
        for p in ptrs:
            for pre in ("", "u8", "u64"):
                yield Job(builtin, {"prefix": pre, "options": ["p", "pc", "px2", "pp", "pn", "p+u8", "px2+u16", "p+b3", "pv"], "endian": "<", "align": al, "compiled": al, "ptr": p}, cost=20)
        firsts = [k for k in FIXED if k not in ("void", "voidx2")]
        pairs = M.CORE + M.CORE_BITS if quick else firsts
        modes = [("<", True), (">", False)] if quick else [(e, c) for e in "<>" for c in (False, True)]
        for f in pairs:
            for e, c in modes:
                for i in range(0, len(pairs), 14):
                    yield Job(builtin, {"prefix": f, "options": pairs[i : i + 14], "endian": e, "align": al, "compiled": c, "ptr": "uint64"}, cost=10)
        for f in TRIPLE:
            for g in TRIPLE if not quick else TRIPLE[::2]:
                yield Job(layouts, {"prefix": f"{f}+{g}", "endian": "<", "align": al, "ptr": "uint64"}, cost=5)


_ = (pick, usable, INTS)
