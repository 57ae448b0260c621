"""C12: enums and flags preserve every underlying value and number their members like C."""

from __future__ import annotations

from spec.model import INTS, Cfg, Cur, Int, RefEOF
from vse.core import b_and, b_eq, b_le, b_not, b_or, op_add, op_and, op_mul, op_neg, op_or, op_shl, op_sub
from vse.run import Job
from vse.values import raw

from .common import canonical

WITNESSES = ["value", "field", "bits", "array", "unknown", "member", "numbered", "cross", "written", "pseudo", "anonymous", "constant"]
BOUNDS = (
    "enums and flags on every built-in integer type (8 to 128 bits, signed and unsigned, and LEB128 of up to 3 bytes), alone, as a structure field, an array, a null-terminated array and a bit-field of 1 to 8 bits, both byte orders, "
    "both readers, packed and aligned, every underlying value; up to 5 members with implicit, literal, expression and duplicate values, where the literals K and L that the expressions use range over symbolic 8-bit (thorough: 16-bit) values"
)
ASSUMPTIONS = [
    "member names that are attributes of Python enumerations (name, value, mro, type, size ...) are not covered",
    "explicit flag values are not negative, and the member values fit the underlying type",
]

KINDS = ("enum", "flag")
NAMES = ("int8", "uint8", "int16", "uint16", "int24", "uint24", "int32", "uint32", "int48", "uint48", "int64", "uint64", "int128", "uint128")
BODIES = {
    "plain": "A, B, C",
    "explicit": "A = 1, B = 5, C",
    "dup": "A = 1, B = 1, C",
    "zero": "Z = 0, A = 1, B",
    "sparse": "A = 1, B = 64",
    "multi": "A = 1, B = 2, AB = 3, C",
    "high": "A = 127",
    "gap": "A = 6, B",
}
NEG = {"neg": "A = -1, B = -128, C"}


def members(kind, body, k=None, lo=None):
    """Expected member values: [(name, value)]."""
    out, nxt = [], 1 if kind == "flag" else 0
    for item in body.split(","):
        name, _, v = item.partition("=")
        v = int(v) if v else nxt
        out.append((name.strip(), v))
        nxt = v + 1 if kind == "enum" else 1 << v.bit_length()
    return out


def decl(kind, name, base, body):
    return f"{kind} {name} : {base} {{ {body} }};"


def lookup(env, cs, kind, x, v, ms):
    """``x`` is an instance of cs.E whose value is ``v``; compare it with everything it should (not) equal."""
    E = cs.E
    env.check(isinstance(x, E), "not an instance of its type", lambda: f"{type(x)}")
    env.check(env.eq(x.value, v), "value", lambda: f"{x!r} has value {x.value}, {v} was read")
    env.check(env.eq(env.num(x), v), "int()", lambda: f"{x!r} is {env.num(x)}, {v} was read")
    for n, m in ms:
        e = getattr(E, n)
        is_ = b_eq(raw(v), m)
        for label, a, b in (("value == member", x, e), ("member == value", e, x)):
            env.check(iff(a == b, is_), label, lambda: f"{a!r} == {b!r} is {a == b}")


def iff(a, b):
    from vse.values import cond

    a, b = cond(a), cond(b)
    return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))


def value(env, kind, base, options, endian, how):
    """One underlying value, read on its own, from a structure or from an array."""
    bk = env.choice("members", options)
    body = BODIES.get(bk) or NEG[bk]
    ms = members(kind, body)
    env.tag = f"{kind} {base} {bk}"
    cs = env.load(decl(kind, "E", base, body), endian=endian)
    b = Int(base)
    data = env.bytes("data", b.n)
    cur = Cur(env, env.els(data))
    want = b.read(cur, Cfg(endian, False), {})[1]
    how = env.choice("how", how)
    if how == "type":
        x = cs.E(data)
    elif how == "stream":
        x = cs.E.read(env.stream(data))
    elif how == "int":
        x = cs.E(env.mkint(want))
    elif how == "resolve":
        x = cs.resolve("E").reads(data)
    else:
        x = cs.E[1](data)[0]
    env.reach("value")
    lookup(env, cs, kind, x, env.mkint(want), ms)
    out = x.dumps()
    env.check(env.same(out, data), "dump", lambda: f"{bytes(data).hex()} -> {x!r} -> {bytes(out).hex()}")
    env.check(env.same(cs.E.dumps(x), data), "dump through the type")
    env.check(env.native_bool(cs.E(x) == x), "converting a value to its own type")
    env.observe("x", x)
    y = cs.E(data)
    env.check(x == y, "two parses of the same value are not equal", lambda: f"{x!r} {y!r}")
    env.check(env.hash_eq(x, y), "two parses of the same value hash differently", lambda: f"{x!r} {y!r}")
    known = b_or(*[b_eq(want, m) for _, m in ms])
    nm = x.name
    if kind == "enum":
        env.check(iff(known, nm is not None), "name", lambda: f"{x!r} has name {nm}")
        if nm is not None:
            env.check(b_or(*[b_and(nm == n, b_eq(want, m)) for n, m in ms]), "name of another member", lambda: f"{x!r} has name {nm}")
            env.reach("member")
        else:
            env.reach("unknown")
    elif nm is None:
        env.reach("unknown")
    # as a number
    n = env.int("n", -300, 300)
    env.check(iff(x == n, b_eq(want, raw(n))), "value == integer", lambda: f"{x!r} == {n} is {x == n}")
    env.check(iff(n == x, b_eq(want, raw(n))), "integer == value", lambda: f"{n} == {x!r} is {n == x}")
    if how == "type" and bk == "explicit":
        env.check(iff(x != n, b_not(b_eq(want, raw(n)))), "value != integer", lambda: f"{x!r} != {n} is {x != n}")
        env.check(env.call(repr, x).ok and env.call(str, x).ok, "repr or str raised", lambda: f"{env.call(repr, x)!r} {env.call(str, x)!r}")


def leb(env, kind, base, n):
    ms = members(kind, "A = 1, B")
    cs = env.load(decl(kind, "E", base, "A = 1, B"))
    data = env.bytes("data", n)
    from spec.model import Leb

    cur = Cur(env, env.els(data))
    try:
        want = Leb(base == "ileb128").read(cur, Cfg("<", False), {})[1]
    except RefEOF:
        env.skip("incomplete")
    canonical(env, cur, env.els(data))
    x = cs.E(data)
    lookup(env, cs, kind, x, env.mkint(want), ms)
    env.check(env.same(x.dumps(), env.mkbytes(env.els(data)[: cur.pos])), "dump")
    y = cs.E(data)
    env.check(x == y and env.hash_eq(x, y), "two parses of the same value differ")


def field(env, kind, base, endian, align, compiled, shape):
    """Fields, arrays, nested arrays, bit-fields: the same value from the same bytes, and back."""
    bk = env.choice("members", ["dup", "multi"] if shape in ("field", "union") else ["sparse"] if env.limit == "quick" else ["explicit", "dup", "multi", "zero"])
    body = BODIES[bk]
    ms = members(kind, body)
    b = Int(base)
    cfg = Cfg(endian, align)
    fields = {
        "field": "E e;",
        "two": "uint8 x; E e; E e2;",
        "array": "E e[2];",
        "matrix": "E e[1][2];",
        "null": "E e[];",
        "eof": "E e[EOF];",
        "count": "uint8 n; E e[n];",
        "union": "union { E e; uint8 x; } u;",
        "typedef": "E2 e;",
        "nested": "struct { E e; } s;",
    }[shape]
    cs = env.load(decl(kind, "E", base, body) + "typedef E E2; struct T { " + fields + " };", endian=endian, align=align, compiled=compiled)
    env.tag = f"{kind} {base} {bk} {shape}"
    pre = {"two": 1, "count": 1}.get(shape, 0)
    at = -(-pre // b.al) * b.al if align else pre
    k = {"array": 2, "matrix": 2, "null": 3, "eof": 1, "count": 2, "two": 2}.get(shape, 1)
    gap = -b.n % b.al if align and shape == "two" else 0
    n = at + k * b.n + gap
    n = -(-n // b.al) * b.al if align and shape not in ("null", "eof", "count") else n
    data = env.bytes("data", max(n, 1))
    els = env.els(data)
    if shape == "count":
        env.assume(b_le(raw(data[0]), 2))
    if pre and at != pre:
        for i in range(pre, at):
            env.assume(b_eq(raw(data[i]), 0))
    cur = Cur(env, els)
    cur.pos = at
    want = []
    for _ in range(k):
        want.append(b.read(cur, cfg, {})[1])
        cur.pos += gap
    for i in range(at + b.n, at + b.n + gap):
        env.assume(b_eq(raw(data[i]), 0))
    r = env.call(cs.T, data)
    if shape == "null":
        none = b_and(*[b_not(b_eq(w, 0)) for w in want])
        env.check(iff(r.ok, b_not(none)), "null-terminated array", lambda: repr(r))
    else:
        env.check(r.ok, "parsing raised", lambda: repr(r))
    if not r.ok:
        return
    t = r.value
    env.reach("field" if shape in ("field", "two", "nested", "typedef", "union") else "array")
    got = t.u.e if shape == "union" else t.s.e if shape == "nested" else t.e
    got = {"matrix": lambda: got[0], "two": lambda: [got, t.e2]}.get(shape, lambda: got if isinstance(got, list) else [got])()
    if shape == "count":
        env.check(env.eq(len(got), data[0]), "number of elements")
    elif shape != "null":
        env.check(len(got) == k, "number of elements", lambda: f"{got!r}")
    for x, w in zip(got, want):
        lookup(env, cs, kind, x, env.mkint(w), ms)
        y = cs.E(env.mkint(w))
        env.check(x == y and env.hash_eq(x, y), "differs from a direct conversion", lambda: f"{x!r} {y!r}")
    out = t.dumps()
    m = len(out)
    if shape in ("null", "count"):
        m = len(got)
        m = at + (m + (shape == "null")) * b.n
        if align and m % b.al:
            m = -(-m // b.al) * b.al
        env.check(len(out) == m, "length of the dump", lambda: f"{bytes(data).hex()} -> {t!r} -> {bytes(out).hex()}")
    m = min(m, len(data), len(out))
    end = at + b.n * (len(got) + (shape == "null")) + gap
    end = min(end, m)
    env.check(env.same(out[:end], data[:end]), "dump", lambda: f"{bytes(data).hex()} -> {t!r} -> {bytes(out).hex()}")
    # written from new objects, and (arrays) from plain integers
    t2 = cs.T(data)
    env.check(env.native_bool(t == t2), "two parses of the same bytes are not equal")
    if shape == "field":
        t3 = cs.T(e=cs.E(env.mkint(want[0])))
        env.check(env.same(t3.dumps(), t.dumps()), "dump of a constructed value", lambda: f"{t3!r} {bytes(t3.dumps()).hex()}")
    if shape == "array":
        t3 = cs.T(e=[env.mkint(w) for w in want])
        env.check(env.same(t3.dumps(), t.dumps()), "dump of plain integers", lambda: f"{t3!r} {bytes(t3.dumps()).hex()}")
    env.reach("written")


def bits(env, kind, base, endian, compiled, widths):
    b = Int(base)
    cs = env.load(decl(kind, "E", base, "A, B = 3, C") + "struct T { " + " ".join(f"E e{i} : {w};" for i, w in enumerate(widths)) + " };", endian=endian, compiled=compiled)
    ms = members(kind, "A, B = 3, C")
    data = env.bytes("data", b.n)
    t = cs.T(data)
    u = Int("u" + base.lstrip("u")).read(Cur(env, env.els(data)), Cfg(endian, False), {})[1]
    at = 0
    total = 8 * b.n
    from vse.core import op_shr

    for i, w in enumerate(widths):
        sh = at if endian == "<" else total - at - w
        at += w
        v = op_and(op_shr(u, sh), (1 << w) - 1)
        lookup(env, cs, kind, getattr(t, f"e{i}"), env.mkint(v), ms)
    env.reach("bits")
    env.check(env.same(t.dumps(), data) if at == total else True, "dump", lambda: f"{bytes(data).hex()} -> {t!r} -> {bytes(t.dumps()).hex()}")


# body with K and L -> member values over them
def high(v):
    """Next higher power of two of a non-negative symbolic value."""
    return v


NUMBER = {
    "A, B, C": lambda k, l: [0, 1, 2],
    "A = K, B, C": lambda k, l: [k, op_add(k, 1), op_add(k, 2)],
    "A, B = K, C, D = L, E": lambda k, l: [0, k, op_add(k, 1), l, op_add(l, 1)],
    "A = K, B = A + 2, C": lambda k, l: [k, op_add(k, 2), op_add(k, 3)],
    "A = K, B = L, C = A | B, D": lambda k, l: [k, l, op_or(k, l), op_add(op_or(k, l), 1)],
    "A = K, B = (A - L) * 2, C = B, D": lambda k, l: [k, op_mul(op_sub(k, l), 2), op_mul(op_sub(k, l), 2), op_add(op_mul(op_sub(k, l), 2), 1)],
    "A = -K, B, C = -L, D": lambda k, l: [op_neg(k), op_add(op_neg(k), 1), op_neg(l), op_add(op_neg(l), 1)],
    "A = K & L, B = ~A, C": lambda k, l: [op_and(k, l), op_sub(op_neg(op_and(k, l)), 1), op_neg(op_and(k, l))],
    "A = sizeof(uint32) + K, B": lambda k, l: [op_add(k, 4), op_add(k, 5)],
    "A = 0x10, B = 0b11, C = 010, D = 1u, E": lambda k, l: [16, 3, 8, 1, 2],
    "K = L, B = K, C": lambda k, l: [l, l, op_add(l, 1)],
    "A = K,\n B,\n\n C,\n": lambda k, l: [k, op_add(k, 1), op_add(k, 2)],
    "A = K, B = A << 1, C": lambda k, l: [k, op_shl(k, 1), op_add(op_shl(k, 1), 1)],
}  # fmt: skip
FLAGS = {
    "A, B, C": lambda k, l: [1, 2, 4],
    "A = K, B, C": lambda k, l: [k, ("next", k), ("next2", k)],
    "A, B = K, C, D = L": lambda k, l: [1, k, ("next", k), l],
    "A = K, B = A | 1, C": lambda k, l: [k, op_or(k, 1), ("next", op_or(k, 1))],
    "A = K, B = L, C = A | B, D": lambda k, l: [k, l, op_or(k, l), ("next", op_or(k, l))],
    "A = 0, B, C": lambda k, l: [0, 1, 2],
    "A = 3, B, C = 1, D": lambda k, l: [3, 4, 1, 2],
    "A = 6, B = A & 2, C": lambda k, l: [6, 2, 4],
}


def numbered(env, kind, base, anonymous, top, options):
    """Implicit values continue from the previous member; explicit ones are expressions over constants and earlier members."""
    table = NUMBER if kind == "enum" else FLAGS
    body = env.choice("members", options)
    env.tag = body.strip()
    cs = env.lib.cstruct()
    k, l = (env.int(x, 0, top) if x in body else 1 for x in "KL")
    cs.consts["K"], cs.consts["L"] = k, l
    want = table[body](raw(k), raw(l))
    text = f"{kind} {'' if anonymous else 'E'} : {base} {{ {body} }};"
    env.note(text)
    cs.load(text)
    names = [x.partition("=")[0].strip() for x in body.split(",") if x.strip()]
    got = []
    for n, w in zip(names, want):
        m = cs.consts[n] if anonymous else cs.E[n]
        m2 = getattr(cs, n) if anonymous else getattr(cs.E, n)
        env.check(m is m2, "attribute and item differ")
        v = m.value
        got.append((n, m))
        if isinstance(w, tuple):
            # the smallest power of two above the previous value
            p = w[1]
            h = raw(v)
            if w[0] == "next2":
                one = [b_and(b_eq(h, 2 << i), b_le(1 << (i - 1) if i else 0, p), b_le(p, (1 << i) - 1)) for i in range(top.bit_length() + 1)]
            else:
                one = [b_and(b_eq(h, 1 << i), b_le(1 << (i - 1) if i else 0, p), b_le(p, (1 << i) - 1)) for i in range(top.bit_length() + 1)]
            ok = b_or(*one)
        else:
            ok = env.eq(v, env.mkint(w))
        env.check(ok, "number of a member", lambda: f"{body.strip()} with K={k}, L={l}: {n} = {v}")
        env.check(env.eq(env.num(m), v), "int() of a member")
        env.check(m == v, "a member is not equal to its value")
        env.check(m.name == n, "name of a member", lambda: f"{n} has name {m.name}")
        env.observe(n, m)
    env.reach("anonymous" if anonymous else "numbered")
    E = type(got[0][1])
    env.check(list(E.__members__) == names, "members", lambda: f"{list(E.__members__)}")
    # a value that is read finds a member with its value
    for n, m in got:
        x = E(m.value)
        env.check(x == m, "value of a member converts to something else", lambda: f"{x!r} {m!r}")
        if kind == "enum":
            env.check(x.name in names, "value of a member has no name", lambda: f"{x!r}")
    for n, m in got:
        for n2, m2 in got:
            env.check(iff(m == m2, env.eq(m.value, m2.value)), "equality of members", lambda: f"{m!r} {m2!r}")
    if not anonymous:
        w = env.int("w", 0, top)
        x = E(w)
        env.check(env.eq(x.value, w), "an unlisted value")
        for n, m in got:
            env.check(iff(x == m, env.eq(m.value, w)), "value == member", lambda: f"{x!r} {m!r}")
    env.reach("constant")


def cross(env, kinds, base):
    """Values of different enums are never equal."""
    k1, k2 = kinds
    cs = env.load(decl(k1, "E", base, "A = 1, B") + decl(k2, "F", base, "A = 1, B, C = 2") + f"{k1} : {base} {{ N1 = 1, N2 }};")
    b = Int(base)
    x, y = cs.E(env.bytes("x", b.n)), cs.F(env.bytes("y", b.n))
    sides = [x, cs.E.A, cs.E.B], [y, cs.F.A, cs.F.B, cs.F.C, cs.consts["N1"], cs.N2]
    for a in sides[0]:
        for c in sides[1]:
            env.check(env.no(a == c), "members of different enums are equal", lambda: f"{a!r} == {c!r}")
            env.check(env.no(c == a), "members of different enums are equal", lambda: f"{c!r} == {a!r}")
            env.check(a != c, "members of different enums are not different", lambda: f"{a!r} != {c!r}")
            env.check(c != a, "members of different enums are not different", lambda: f"{c!r} != {a!r}")
    # also as fields
    cs.load("struct P { E v; }; struct Q { F v; };")
    other = env.lib.cstruct()
    other.load(decl(k1, "E", base, "A = 1, B"))
    z = other.E(env.mkint(raw(x.value)))
    env.check(env.no(x == z), "members of enums of two cstructs are equal", lambda: f"{x!r} == {z!r}")
    env.reach("cross")


def pseudo(env, kind, base):
    """What was converted before does not change what a value converts to."""
    cs, fresh = (env.load(decl(kind, "E", base, "A = 1, B, D = 8")) for _ in range(2))
    b = Int(base)
    lo = 0 if base[0] == "u" else -(1 << (8 * b.n - 1))
    hi = (1 << (8 * b.n)) - 1 + lo
    first = env.int("first", lo, hi)
    v = env.int("v", lo, hi)
    x0 = cs.E(first)
    x = cs.E(v)
    y = fresh.E(v)
    env.check(env.eq(x.value, v) and env.eq(x0.value, first), "value")
    env.check(env.eq(y.value, v), "value")
    env.check(iff(x == x0, env.eq(v, first)), "equality of two values", lambda: f"{x!r} {x0!r}")
    nx, ny = x.name, y.name
    env.check((nx is None) == (ny is None), "name depends on earlier conversions", lambda: f"{nx} {ny}")
    if nx is not None:
        if kind == "enum" or env.branch(env.eq(v & 11, v)):
            env.check(nx == ny, "name depends on earlier conversions", lambda: f"{nx} {ny}")
    x1 = cs.E(v)
    env.check(x1 == x, "equality of two conversions")
    env.check(env.hash_eq(x1, x), "hash of two conversions")
    env.reach("pseudo")


def jobs(tier, lib):
    quick = tier == "quick"
    bodies = list(BODIES)
    for kind in KINDS:
        for base in NAMES:
            for e in "<>":
                some = bodies if not quick or base in ("uint8", "int16", "uint32", "int24") else ["explicit", "dup", "multi"]
                opts = [x for x in some] + (["neg"] if kind == "enum" and base[0] == "i" else [])
                for i in range(0, len(opts), 3):
                    yield Job(value, {"kind": kind, "base": base, "options": opts[i : i + 3], "endian": e, "how": ["type", "stream", "int", "resolve", "array"] if not quick or i == 0 else ["type"]}, cost=10)
        for base in ("uleb128", "ileb128"):
            yield Job(leb, {"kind": kind, "base": base, "n": 3 if quick else 5}, cost=10)
        shapes = ["field", "two", "array", "matrix", "null", "eof", "count", "union", "typedef", "nested"]
        for base in ("uint8", "int16", "int24") if quick else NAMES:
            for e in "<>":
                for al in (False, True):
                    for c in (False, True):
                        if quick and (e == ">") != al:
                            continue
                        for s in shapes:
                            if quick and c != al and s in ("matrix", "eof", "union", "typedef", "nested", "count"):
                                continue
                            yield Job(field, {"kind": kind, "base": base, "endian": e, "align": al, "compiled": c, "shape": s}, cost=10)
        if quick:
            for base, e, c in (("uint48", ">", False), ("int64", "<", True), ("uint128", "<", False), ("int128", ">", False)):
                for s in ("field", "array", "null") if base != "int128" else ("array",):
                    yield Job(field, {"kind": kind, "base": base, "endian": e, "align": False, "compiled": c, "shape": s}, cost=10)
        for base in ("uint8", "int8", "uint16", "int32") if quick else NAMES:
            n = 8 * INTS[base][0]
            for e in "<>":
                for c in (False, True):
                    for ws in ([3, 5], [8], [1, 2]) if n == 8 else ([3, n - 3], [7, 2]):
                        yield Job(bits, {"kind": kind, "base": base, "endian": e, "compiled": c, "widths": ws}, cost=5)
        for anonymous in (False, True):
            for body in NUMBER if kind == "enum" else FLAGS:
                yield Job(numbered, {"kind": kind, "base": "int16" if kind == "enum" else "uint16", "anonymous": anonymous, "top": 255 if quick else 65535, "options": [body]}, cost=60)
        for base in ("uint8", "int8", "uint16", "int24"):
            yield Job(pseudo, {"kind": kind, "base": base}, cost=20)
        for k2 in KINDS:
            for base in ("uint8", "int16", "uint24"):
                yield Job(cross, {"kinds": [kind, k2], "base": base}, cost=10)
