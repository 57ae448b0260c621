"""C18: a structure built in steps, or that refers to itself, is the one declared in one piece."""

from __future__ import annotations

from spec import menu as M
from spec.model import Cfg, Struct
from vse.canon import ceq
from vse.core import b_and
from vse.run import Job

from .c13 import anon
from .common import has, is_eof, min_len, room, source, straddles

WITNESSES = ["one by one", "batches", "from a declaration", "used between", "compiled late", "interpreted", "compiled", "itself", "explicit offset", "union", "parsed", "nested"]
BOUNDS = (
    "definitions: every pair and a selection of triples (thorough: quadruples) over 30 fragments of spec/menu.py, of up to 6 fields; definitions with a part of 16 to 256 bytes (symbolic at PROBES); every split into a declared beginning and steps of one field or a batch "
    "(every composition of up to 4 (thorough 6) fields), four ways to take a step (and a mixture of them), with or without use of every intermediate state; compiled from the beginning, later, last or not at all; packed and aligned, both byte orders; "
    "unions, explicit offsets; 14 self-referential declarations; compared by layout, parse of symbolic bytes (minimal length, up to two less and two more), position, recorded sizes, dump, "
    "default, construction, equality, hash, truth, arrays and nesting"
)
ASSUMPTIONS = [
    "a step that fails (a duplicate name, a straddling bit-field) is not part of a history",
    "a typedef that is the only declaration of a self-referential structure (typedef struct T { T *p; } T;) is refused by the parser (ResolveError) and is not a definition",
    "types derived from an intermediate state before it was extended (arrays, structures that contain it) keep what they were derived from",
]


def layout(cls):
    return (
        cls.size,
        cls.alignment,
        cls.dynamic,
        cls.__name__,
        cls.__align__,
        [(f._name if f.name is not None else None, f.offset, f.bits, f.alignment) for f in cls.__fields__],
        list(cls.fields),
        [k if f.name is not None else None for k, f in cls.lookup.items()],
        [(f.offset, f.bits) for f in cls.fields.values()],
    )


def values(env, cls, n):
    """Everything that is observed of a structure type on the same symbolic bytes."""
    out = {"layout": layout(cls)}
    out["len"] = env.call(len, cls)
    out["len"] = (out["len"].ok, out["len"].value if out["len"].ok else out["len"].kind)
    return out


def sizes(v):
    return {k if not k.startswith("__anon") else "anonymous": n for k, n in getattr(v, "_sizes", {}).items() if n}


def same(env, a, b, what, detail):
    """Same outcome: error or canonical value."""
    env.check(a.ok == b.ok and (a.ok or a.kind == b.kind), f"{what} differs", lambda: f"{detail}: {a!r} {b!r}")
    if not a.ok:
        return None
    env.check(ceq(anon(env.canon(a.value)), anon(env.canon(b.value))), f"{what} differs", lambda: f"{detail}: {a!r} {b!r}")
    return a.value, b.value


def compare(env, a, b, n, detail, data):
    """Two structure types are the same as far as anyone can tell."""
    x, y = layout(a), layout(b)
    env.check(x == y, "layout differs", lambda: f"{detail}: {x} {y}")
    env.check(a.__compiled__ == b.__compiled__, "only one of the readers is compiled", lambda: f"{detail}: {a.__compiled__} {b.__compiled__}")
    env.reach("compiled" if a.__compiled__ else "interpreted")
    same(env, env.call(len, a), env.call(len, b), "length", detail)
    # reading
    sa, sb = env.stream(data), env.stream(data)
    ra, rb = env.call(a, sa), env.call(b, sb)
    v = same(env, ra, rb, "parsed value", detail)
    if v:
        env.reach("parsed")
        env.check(sa.tell() == sb.tell(), "the readers leave the stream elsewhere", lambda: f"{detail}: {sa.tell()} {sb.tell()}")
        env.check(sizes(v[0]) == sizes(v[1]), "recorded sizes differ", lambda: f"{detail}: {sizes(v[0])} {sizes(v[1])}")
        instance(env, v[0], v[1], detail)
    # defaults
    d = same(env, env.call(a), env.call(b), "default", detail)
    if d:
        instance(env, d[0], d[1], detail)
        if v:
            env.check(iff(env, v[0] == d[0], v[1] == d[1]), "equality differs", lambda: f"{detail}: {v} {d}")
            env.check(iff(env, v[0] != d[0], v[1] != d[1]), "equality differs", lambda: f"{detail}: {v} {d}")
    # construction from the values of the parsed instance, and assignment
    if v and not a.dynamic and not (isinstance(v[0], env.lib.Union) and len(a.lookup) > 1):
        names = list(a.lookup)
        other = list(b.lookup)
        if len(names) > 1 or names and not isinstance(getattr(v[0], names[0]), (bytes, bytearray)) and env.canon(getattr(v[0], names[0]))[0] != "b":
            c = same(env, env.call(lambda: a(*[getattr(v[0], k) for k in names])), env.call(lambda: b(*[getattr(v[1], k) for k in other])), "construction", detail)
            if c:
                instance(env, c[0], c[1], detail)
        c = same(env, env.call(lambda: a(**{names[-1]: getattr(v[0], names[-1])})) if names else env.call(a), env.call(lambda: b(**{other[-1]: getattr(v[1], other[-1])})) if other else env.call(b), "construction", detail)
        if c and names:
            instance(env, c[0], c[1], detail)
    if v and d and not a.dynamic:
        for k in list(a.fields)[:1] + list(a.fields)[-1:]:
            env.call(setattr, d[0], k, getattr(v[0], k))
            env.call(setattr, d[1], k, getattr(v[1], k))
            instance(env, d[0], d[1], detail)
    # arrays and structures of it
    if a.size is not None and a.size and data is not None:
        more = data + data
        same(env, env.call(a[2], env.stream(more)), env.call(b[2], env.stream(more)), "array of it", detail)
        env.check(a[2].size == b[2].size and a[2].alignment == b[2].alignment, "array of it differs", lambda: detail)


def iff(env, x, y):
    x, y = env.both(x), env.both(y)
    return env.either(env.both(x, y), env.both(env.no(x), env.no(y)))


def instance(env, v, w, detail):
    """Two instances behave the same."""
    d = same(env, env.call(v.dumps), env.call(w.dumps), "dump", detail)
    if d:
        env.check(len(d[0]) == len(d[1]), "dump differs", lambda: f"{detail}: {d!r}")
    env.check(env.call(len, v).kind == env.call(len, w).kind, "length of an instance differs", lambda: detail)
    env.check(iff(env, env.native_bool(v), env.native_bool(w)), "truth differs", lambda: f"{detail}: {v!r} {w!r}")
    a, b = env.call(env.hash, v), env.call(env.hash, w)
    env.check(a.kind == b.kind, "hash differs", lambda: f"{detail}: {a!r} {b!r}")
    env.check(env.native_bool(v == v) == env.native_bool(w == w), "equality differs", lambda: f"{detail}: {v!r} {w!r}")


def use(env, t, n):
    """Exercise an intermediate state, so that whatever it might cache is there."""
    env.call(t, bytes(n))
    d = env.call(t)
    if d.ok:
        for f in (d.value.dumps, lambda: hash(d.value), lambda: bool(d.value), lambda: d.value == t(), lambda: repr(d.value), lambda: len(t)):
            env.call(f)
    if t.size is not None:
        env.call(lambda: t[2](bytes(2 * n)))
    env.reach("used between")


STYLES = ("add", "batch", "append", "nested", "mixed")
MIXED = ("batch", "add", "nested", "add", "append", "add")


def extend(env, t, style, fields):
    """One step: some more fields."""
    lib = env.lib
    if style == "add" or not fields:
        for f in fields:
            t.add_field(f.name, f.type, bits=f.bits, offset=f.offset if getattr(f, "explicit", False) else None)
        return
    if style == "append":
        for f in fields:
            t.__fields__.append(lib.Field(f.name, f.type, bits=f.bits, offset=f.offset if getattr(f, "explicit", False) else None))
        t.commit()
        return
    with t.start_update():
        if style == "nested" and len(fields) > 1:
            with t.start_update():
                extend(env, t, "add", fields[:1])
            extend(env, t, "add", fields[1:])
        else:
            extend(env, t, "add", fields)


def compositions(n):
    if n == 0:
        return [[]]
    return [[k, *rest] for k in range(1, n + 1) for rest in compositions(n - k)]


def prefixes(st):
    """Where a declaration can end: not inside a run of bit-fields of one fragment? anywhere."""
    return range(len(st.fields) + 1)


def steps(env, prefix, options, union, endian, align, when, start, style, between, extra):
    """Split a definition, build it, compare."""
    keys = [k for p in (prefix, env.choice("fields", options)) for k in p.split("+") if k]
    env.tag = "+".join(keys)
    st = M.build(keys, union=union)
    cfg = Cfg(endian, align, compiled=False)
    if straddles(st, cfg):
        env.skip("bit-fields straddle their unit")
    if union and any(f.bits for f in st.fields):
        env.skip("bit-fields in a union")
    total = len(st.fields)
    k = {"nothing": 0, "half": (total + 1) // 2, "most": total - 1}[start]
    if keys[0] in M.LARGE:
        n = room(keys, st, cfg, 0) + env.choice("more", [-1, 0])
        rest = total - k
        step = 1 if between else 7 if rest < 100 else 63
        split = [*[step] * (rest // step), *[rest % step] * (rest % step > 0)]
        between = between and rest < 20
    else:
        n = max(0, min_len(st, cfg) + env.choice("more", [-1, 0, extra]))
        split = env.choice("split", compositions(total - k))
    compiled = when != "never"
    one = env.load(st.source(), endian=endian, align=align, compiled=compiled).T
    # the same declaration under another name supplies the types
    donor = Struct("D", st.fields, union)
    cs = env.load(donor.source(), endian=endian, align=align, compiled=False)
    fields = cs.D.__fields__
    text = Struct("T", st.fields[:k], union).text()
    env.note(f"{text} compiled={when} {split} {style} {between}")
    if k:
        # declared members of anonymous types are the donor's
        cs.load(f"{'union' if union else 'struct'} T {{ }};", align=align, compiled=when == "first")
        t = cs.T
        t.__fields__.extend(env.lib.Field(f.name, f.type, bits=f.bits) for f in fields[:k])
        t.commit()
        if not any(f.name is None for f in st.fields[:k]) and not any(isinstance(f.ty, Struct) and f.ty.name is None for f in st.fields[:k]):
            other = env.load(donor.source() + " " + text, endian=endian, align=align, compiled=False)
            fields = other.D.__fields__
            t = other.T
            if when == "first":
                env.lib.compiler.compile(t)
            env.reach("from a declaration")
    else:
        cs.load(text, align=align, compiled=when == "first")
        t = cs.T
    at = k
    for i, step in enumerate(split):
        if when == "later" and i == len(split) // 2:
            env.lib.compiler.compile(t)
            env.reach("compiled late")
        if between:
            use(env, t, n)
        extend(env, t, MIXED[i % 6] if style == "mixed" else style, fields[at : at + step])
        at += step
    if when == "last" or (when == "later" and not split):
        env.lib.compiler.compile(t)
        env.reach("compiled late")
    env.reach("batches" if max(split or [0]) > 1 else "one by one")
    if union:
        env.reach("union")
    compare(env, one, t, n, f"{st.text()} {split} {style}", source(env, keys, st, cfg, n))


OFFSETS = {
    "gap": [("a", "uint8", None, None), ("b", "uint16", None, 4), ("c", "uint8", None, None)],
    "gaps": [("a", "uint8", None, 1), ("b", "uint8", None, 3), ("c", "uint32", None, 6)],
    "back": [("a", "uint32", None, None), ("b", "uint16", None, 1), ("c", "uint8", None, None)],
    "overlay": [("a", "uint32", None, None), ("b", "uint8", None, 0), ("c", "uint8", None, 1)],
    "bits": [("a", "uint8", 4, None), ("b", "uint8", 4, None), ("c", "uint8", 4, 3), ("d", "uint8", 4, None)],
    "bits between": [("a", "uint16", 3, None), ("b", "uint16", 5, None), ("c", "uint8", None, 4), ("d", "uint16", 9, None)],
    "arrays": [("a", "uint8[2]", None, None), ("b", "uint16[2]", None, 4), ("c", "char[2]", None, None)],
    "dynamic": [("a", "uint8", None, None), ("b", "char[]", None, None), ("c", "uint16", None, None)],
    "padding": [("_", "uint8", None, None), ("a", "uint8", None, None), ("_", "uint16", None, None), ("b", "uint8", None, None)],
    "paddings": [("_", "uint8", None, None), ("_", "uint8", None, None), ("_", "char[]", None, None), ("a", "uint16", None, None)],
    "padding bits": [("_", "uint8", 4, None), ("a", "uint8", 4, None), ("_", "uint16", None, None), ("_", "uint8", 2, 5)],
    "nothing": [("a", "uint8[0]", None, None), ("b", "uint8", None, 2)],
}


def offsets(env, name, endian, align, when, style):
    """Explicit offsets, against one commit of all the fields."""
    cs = env.lib.cstruct(endian=endian)
    spec = OFFSETS[name]
    env.tag = f"{name} {style}"
    split = env.choice("split", compositions(len(spec)))

    def field(x):
        n, ty, bits, off = x
        base, _, c = ty.partition("[")
        t = cs.resolve(base)
        if c:
            t = t[None if c == "]" else int(c[:-1])]
        return env.lib.Field(n, t, bits=bits, offset=off)

    cs.load("struct One { }; struct T { };", align=align, compiled=when != "never")
    one, t = cs.One, cs.T
    one.__name__ = "T"
    with one.start_update():
        for x in spec:
            f = field(x)
            one.add_field(f.name, f.type, bits=f.bits, offset=f.offset)
    direct = env.lib.Field and cs._make_struct("T", [field(x) for x in spec], align=align) if hasattr(cs, "_make_struct") else None
    at = 0
    for step in split:
        use(env, t, 12)
        fs = [field(x) for x in spec[at : at + step]]
        for f in fs:
            f.explicit = True
        extend(env, t, style, fs)
        at += step
    env.note(f"{spec} {split} {style}")
    data = env.bytes("data", 12)
    compare(env, one, t, 12, f"{name} {split} {style}", data)
    if direct is not None:
        if when != "never":
            env.lib.compiler.compile(direct)
        compare(env, direct, t, 12, f"{name} {split} {style}", data)
    env.reach("explicit offset")


# definition, the same with another pointer target, members
SELF = {
    "list": "struct T { uint8 v; T *next; };",
    "first": "struct T { T *next; uint16 v; };",
    "two": "struct T { T *left; uint8 k; T *right; uint16 v; };",
    "array": "struct T { uint8 k; T *p[2]; uint8 z; };",
    "dynamic array": "struct T { uint8 n; T *p[n & 1]; uint8 z; };",
    "pointer to pointer": "struct T { uint8 k; T **p; uint8 z; };",
    "inside": "struct T { struct { uint8 a; T *p; } i; uint8 z; };",
    "anonymous": "struct T { uint8 a; struct { T *p; uint8 b; }; uint8 z; };",
    "in a union": "struct T { uint8 a; union { T *p; uint8 b; } u; uint8 z; };",
    "union": "union T { T *p; uint8 a; };",
    "with struct": "struct T { struct T *p; uint8 a; };",
    "behind dynamic": "struct T { uint8 n; uint8 v[n & 1]; T *p; uint16 z; };",
    "bits": "struct T { uint8 a : 3; uint8 b : 5; T *p; uint16 c : 4; uint16 d : 12; };",
    "alone": "struct T { T *p; };",
}


def itself(env, name, width, endian, align, compiled):
    """A declaration that refers to itself has the layout and values of one that refers to something else."""
    text = SELF[name]
    env.tag = f"{name} {width}"
    kw = {"endian": endian, "pointer": width}
    a = env.load(text, align=align, compiled=compiled, **kw)
    b = env.load("struct O { uint8 x; }; " + text.replace("struct T *", "O *").replace("T *", "O *"), align=align, compiled=compiled, **kw)
    t, o = a.T, b.T
    w = {"uint8": 1, "uint16": 2, "uint32": 4}[width]
    n = (o.size if o.size is not None else 3 * w + 4) + 1
    data = env.bytes("data", n)
    x, y = layout(t), layout(o)
    env.check(x == y, "layout differs", lambda: f"{text}: {x} {y}")
    env.check(t.__compiled__ == o.__compiled__, "only one of the readers is compiled", lambda: f"{text}: {t.__compiled__} {o.__compiled__}")
    env.check(t.size is None or t.size > 0, "layout differs", lambda: text)
    s, u = env.stream(data), env.stream(data)
    v = same(env, env.call(t, s), env.call(o, u), "parsed value", text)
    if v:
        env.check(s.tell() == u.tell(), "the readers leave the stream elsewhere", lambda: text)
        env.check(sizes(v[0]) == sizes(v[1]), "recorded sizes differ", lambda: text)
        instance(env, v[0], v[1], text)
        # what it points at is of its own, final type
        p = pointers(env, v[0])
        at = s.tell()
        q = env.choice("pointer", p) if p else None
        if q is not None:
            level = 0
            tt = type(q).type
            while issubclass(tt, env.lib.Pointer):
                tt, level = tt.type, level + 1
            env.check(tt is t, "the pointer's target is another type", lambda: f"{text} {tt} {t}")
            r = env.call(q.dereference)
            if level == 0 and not env.native_bool(q == 0):
                s2 = env.stream(data)

                def ref():
                    s2.seek(env.num(q))
                    return t(s2)

                same(env, r, env.call(ref), "what it points at", text)
                env.reach("itself")
            env.check(s.tell() == at, "dereferencing moved the stream", lambda: text)
    d = same(env, env.call(t), env.call(o), "default", text)
    if d:
        instance(env, d[0], d[1], text)
    for name_ in ("T", "U"):
        if name_ == "U" and "U;" not in text:
            continue
        env.check(a.resolve(name_) is t, "the name is another type", lambda: text)


def pointers(env, v):
    out = []

    def walk(x):
        while type(x).__name__ == "UnionProxy":
            x = object.__getattribute__(x, "__target__")
        if isinstance(x, env.lib.Pointer):
            out.append(x)
        elif isinstance(x, env.lib.Structure):
            for k in type(x).fields:
                walk(getattr(x, k))
        elif isinstance(x, list):
            for y in x:
                walk(y)

    walk(v)
    return out


def contained(env, keys, style, endian, align, compiled):
    """A structure built in steps inside others."""
    st = M.build(keys.split("+"))
    cfg = Cfg(endian, align, compiled=False)
    if straddles(st, cfg) or is_eof(st):
        env.skip("no use")
    env.tag = keys
    outer = "struct O { uint8 a; T t; uint16 b; }; struct P { uint8 a; T t[2]; T *p; }; union Q { T t; uint8 c; };"
    one = env.load(st.source() + outer, endian=endian, align=align, compiled=compiled)
    cs = env.load(Struct("D", st.fields).source() + " struct T { };", endian=endian, align=align, compiled=compiled)
    fields = cs.D.__fields__
    for i, f in enumerate(fields):
        use(env, cs.T, 4)
        extend(env, cs.T, style, [f])
    cs.load(outer, align=align, compiled=compiled)
    which = env.choice("in", ["O", "P", "Q"])
    if which == "Q" and one.Q.dynamic:
        env.skip("dynamic union")
    a, b = getattr(one, which), getattr(cs, which)
    n = (a.size if a.size is not None else 24) if not has(st, lambda t: False) else 0
    compare(env, a, b, n, f"{st.text()} in {which}", env.bytes("data", n))
    env.reach("nested")


QUICK = "u8 u16 u32 s24x2 chx3 wc e8 p n1 un as b3 h4 b35 w_h tb5 dn chz ul".split()


def jobs(tier, lib):
    quick = tier == "quick"
    menu = QUICK if quick else QUICK + "u24 u64 f32 g8 u8x2x2 nb ns au eb2 wcz nd u8z d16 w31 c0 u8e".replace("c0 ", "").split()
    modes = [("<", False), (">", True), ("<", True), (">", False)]
    whens = ("first", "later", "last", "never")
    starts = ("nothing", "half", "most")
    k = 0
    for i, f in enumerate(menu):
        for j in range(0, len(menu), 5):
            opts = menu[j : j + 5]
            for m, (e, al) in enumerate(modes):
                if quick and (i + j // 5 + m) % 4:
                    continue
                k += 1
                if f in M.EOF_KEYS:
                    continue
                for z in range(1 if quick else 4):
                    yield Job(steps, {"prefix": f, "options": opts, "union": False, "endian": e, "align": al, "when": whens[(k + z) % 4], "start": starts[(k // 2 + z) % 3], "style": STYLES[(k // 3 + z) % 5], "between": bool((k // 5 + z) % 2), "extra": 2 if not al or quick else 3}, cost=10)
    triples = ["u8+b3+b5", "b3+u8+b5", "u8+dn+u16", "chz+u8+u32", "u32+u8+n1", "as+u8+as", "un+u16+u8", "b35+h4+u8", "u16+p+u8", "eb2+eb6", "n1+chz+b3", "wc+chx3+u24", "u8+u16+u32", "b3+b3+u16", "h4+h4+h4", "dn+b3+h4", "u8+u64+u8", "s24x2+ul+u16"]
    for i, f in enumerate(triples):
        for m, (e, al) in enumerate(modes):
            for w, when in enumerate(whens):
                if quick and ((w + m + i) % 4 or (i + m) % 2):
                    continue
                for s, start in enumerate(starts):
                    if quick and s != i % 3 and s:
                        continue
                    yield Job(steps, {"prefix": f, "options": [""] if quick and start == "nothing" else ["", "u16"] if quick else ["", "u16", "b3", "chz", "as", "u8+u32"], "union": False, "endian": e, "align": al, "when": when, "start": start, "style": STYLES[(i + s + w) % 5], "between": bool((i + s) % 2), "extra": 2}, cost=12)
    for i, f in enumerate(M.LARGE):
        if f in ("Lun", "Lwz", "Lwc", "Lf32", "Lbits", "L260") and quick or f in M.EOF_KEYS:
            continue
        for m, (e, al) in enumerate(modes):
            if quick and (i + m) % 4:
                continue
            yield Job(steps, {"prefix": f, "options": [""], "union": False, "endian": e, "align": al, "when": whens[(i // 4 + m) % 4], "start": starts[(i // 3 + m) % 2], "style": STYLES[(i + m) % 5], "between": f != "L260" and bool((i // 2 + m) % 2), "extra": 0}, cost=14)
    for i, f in enumerate(["u8", "u32", "chx3", "n1", "as", "p", "u8x2x2", "un", "w_h"]):
        for m, (e, al) in enumerate(modes):
            if quick and (i + m) % 2:
                continue
            yield Job(steps, {"prefix": f, "options": ["u16", "u8x3", "n2", "e8"], "union": True, "endian": e, "align": al, "when": whens[(i + m) % 4], "start": starts[(i + m) % 3], "style": STYLES[(i + m) % 5], "between": bool(m % 2), "extra": 1}, cost=8)
    for i, name in enumerate(OFFSETS):
        for m, (e, al) in enumerate(modes):
            for s, style in enumerate(STYLES[:4]):
                if quick and (i + m + s) % 4:
                    continue
                yield Job(offsets, {"name": name, "endian": e, "align": al, "when": "first" if (i + m // 2 + s) % 2 else "never", "style": style}, cost=3)
    for i, name in enumerate(SELF):
        for w, width in enumerate(("uint8", "uint16", "uint32")):
            for c in (False, True):
                for m, (e, al) in enumerate(modes):
                    if quick and (i + w + m + c) % 4:
                        continue
                    yield Job(itself, {"name": name, "width": width, "endian": e, "align": al, "compiled": c}, cost=5)
    for i, keys in enumerate(["u8+u16", "u8+b3+b5", "u16+n1", "chx3+u32", "as+u8", "un+u8", "u8+chz", "dn+u16", "p+u8", "e8+wc"]):
        for c in (False, True):
            for m, (e, al) in enumerate(modes):
                if quick and (i + m + 2 * c) % 4:
                    continue
                yield Job(contained, {"keys": keys, "style": STYLES[(i + m) % 5], "endian": e, "align": al, "compiled": c}, cost=6)


_ = (b_and,)
