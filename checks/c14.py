"""C14: no hidden shared state between instances, defaults and cstruct objects; parsing depends on type and bytes only."""

from __future__ import annotations

from vse.canon import ceq
from vse.core import b_and
from vse.run import Job

from .c13 import describe

WITNESSES = ["mutated", "element", "history", "failed before", "two objects", "input"]
BOUNDS = (
    "19 definitions over every kind of member; two instances, each made in one of 6 ways (parsed from symbolic bytes, default-constructed three ways, partly constructed, elements of one array), one (thorough: two) symbolic mutations anywhere "
    "inside the first: the second, later defaults, later parses and array defaults are unchanged; 30 operations on a cstruct object (parses, failing parses, dumps, constructions, mutations, failing and successful loads, lookups), "
    "one before (thorough: every pair before, and quick a selection of pairs) each of 16 types is parsed from symbolic bytes, compared with a fresh cstruct object; two cstruct objects whose definitions of one name (every kind of SHARED) may differ, used behind pointers and in arrays (FORMS), in both orders, both readers; every interleaving of 4 (thorough 5) operations over two cstruct objects with definitions of the same names"
)
ASSUMPTIONS = [
    "an object that the caller passes to two constructors is shared by the caller",
    "operations that define or replace a name the parsed type uses, on its own cstruct object, are not histories in the sense of the property",
]

DEFS = {
    "scalars": "struct T { uint8 a; int16 b; char c; wchar d; uint24 e; float f; };",
    "arrays": "struct T { uint8 a[2]; uint16 b[2]; int24 c[1]; char d[3]; wchar e[2]; };",
    "nested arrays": "struct T { uint8 a[2][2]; char b[2][2]; };",
    "struct": "struct N { uint8 x; uint8 y[2]; }; struct T { N n; uint8 z; };",
    "deep": "struct T { struct { struct { uint8 x[2]; } b; uint8 y; } a; };",
    "struct array": "struct N { uint8 x; uint8 y[2]; }; struct T { N n[2]; };",
    "struct arrays": "struct N { uint8 x; }; struct T { N n[2][2]; };",
    "union": "union T { uint16 a; struct { uint8 x; uint8 y; } b; uint8 c[2]; };",
    "union inside": "union N { uint16 a; uint8 b[2]; }; struct T { N n; N m[2]; };",
    "anonymous": "struct T { struct { uint8 a; uint8 b[2]; }; union { uint8 c; uint16 d; }; };",
    "enums": "enum E : uint8 { A, B = 5 }; flag F : uint8 { X = 1, Y = 2 }; struct T { E e; E f[1]; };",
    "flags": "flag F : uint8 { X = 1, Y = 2 }; struct T { F h[1]; uint8 z[1]; };",
    "bits": "struct T { uint8 a : 3; uint8 b : 5; uint16 c : 9; uint8 d[2]; };",
    "pointers": "struct N { uint8 x; }; struct T { N *p; uint8 *q[2]; };",
    "dynamic": "struct T { uint8 n; uint8 a[n & 3]; uint16 b[n & 1]; };",
    "terminated": "struct T { char a[]; uint8 b[]; };",
    "to the end": "struct T { uint8 a; uint16 b[EOF]; };",
    "dynamic structs": "struct N { uint8 k; uint8 v[k & 1]; }; struct T { uint8 n; N x[n & 1]; N y; };",
    "leb": "struct T { uleb128 a; ileb128 b[2]; };",
}
SIZE = {"enums": 2, "flags": 2, "scalars": 12, "arrays": 15, "nested arrays": 8, "union inside": 6, "anonymous": 5, "pointers": 24, "struct array": 6, "dynamic": 4, "terminated": 4, "to the end": 4, "leb": 4, "dynamic structs": 4, "bits": 5}
WAYS = ["parsed", "T()", "T.__default__()", "partly", "of an array", "of a default array"]


def parse(env, t, data):
    s = env.stream(data)
    r = env.call(t, s)
    return r, s.tell()


def snap(env, t, v):
    """Everything an observer sees of an instance."""
    d = env.call(lambda: v.dumps())
    return env.canon(v), env.canon(d.value) if d.ok else ("x", d.kind), env.call(len, v).kind


def same(a, b):
    return b_and(ceq(a[0], b[0]), ceq(a[1], b[1]), a[2] == b[2])


def make(env, cs, way, data, name):
    """An instance, and one it might share something with."""
    t = cs.T
    if way == "parsed":
        r, _ = parse(env, t, data)
        if not r.ok:
            env.skip("does not parse")
        return r.value, None
    if way == "T()":
        return t(), None
    if way == "T.__default__()":
        return t.__default__(), None
    if way == "partly":
        r = env.call(lambda: t(**{next(iter(t.fields)): getattr(t(), next(iter(t.fields)))}))
        if not r.ok:
            env.skip("can't be constructed")
        return r.value, None
    if way == "of an array":
        if not t.size:
            env.skip("dynamic")
        a = env.call(t[2], data[: t.size] + data[: t.size])
        if not a.ok:
            env.skip("does not parse")
        return a.value[0], a.value[1]
    a = t[2].__default__()
    return a[0], a[1]


def steps(env, v, lib):
    """Everything in an instance that can be mutated: (description, function)."""
    out = []

    def walk(get, path, v, depth):
        if isinstance(v, lib.Structure):
            for k, f in v.__class__.fields.items():
                x = getattr(v, k)
                out.append(((*path, k), "=", lambda get=get, k=k, x=x: setattr(get(), k, other(env, x, lib))))
                if depth < 4:
                    walk(lambda get=get, k=k: getattr(get(), k), (*path, k), x, depth + 1)
        elif isinstance(v, list):
            if len(v):
                out.append(((*path, 0), "=", lambda: get().__setitem__(0, other(env, v[0], lib))))
                out.append(((*path, len(v) - 1), "=", lambda: get().__setitem__(len(v) - 1, other(env, v[0], lib))))
                out.append((path, "pop", lambda: get().pop()))
                out.append((path, "append", lambda: get().append(v[0])))
                if depth < 4:
                    for i in {0, len(v) - 1}:
                        walk(lambda get=get, i=i: get()[i], (*path, i), v[i], depth + 1)
            else:
                out.append((path, "append", lambda: get().append(7)))
            out.append((path, "clear", lambda: get().clear()))

    walk(lambda: v, (), v, 0)
    return out


def outside(a, b, path):
    """Two canonical values are the same everywhere but at ``path``."""
    if not path:
        return True
    if a[0] != b[0]:
        return False
    if a[0] == "st":
        return b_and(*[outside(x, y, path[1:]) if k == path[0] else ceq(x, y) for (k, x), (_, y) in zip(a[2], b[2])])
    if a[0] == "l":
        return b_and(len(a[1]) == len(b[1]), *[outside(x, y, path[1:]) if k == path[0] else ceq(x, y) for k, (x, y) in enumerate(zip(a[1], b[1]))])
    return ceq(a, b)


def other(env, x, lib):
    """A value of the same kind, usually another one."""
    i = len(env.notes)
    env.note("value")
    if isinstance(x, (lib.Enum, lib.Flag)):
        return x.__class__(env.int(f"v{i}", 0, 5) if env.native_bool(env.int(f"k{i}", 0, 1) == 1) else 5)
    if isinstance(x, lib.Pointer):
        return env.int(f"v{i}", 0, 255)
    if isinstance(x, bytes):
        return env.bytes(f"v{i}", len(x))
    if isinstance(x, str):
        return env.wtext(f"v{i}", len(x))
    if isinstance(x, float):
        return 1.5
    if isinstance(x, lib.Structure):
        return x.__class__()
    if isinstance(x, list):
        return x.__class__([])
    return env.int(f"v{i}", 0, 1)


def mutate(env, name, way, second, compiled, align, times):
    cs = env.load(DEFS[name], compiled=compiled, align=align)
    lib, t = env.lib, cs.T
    data = env.bytes("data", SIZE.get(name, 6))
    env.tag = f"{way}|{second}"
    fresh = snap(env, t, t())
    array = env.canon(t[2].__default__())
    members = [(f, env.canon(f.type.__default__())) for f in t.__fields__]
    before = None
    if way == "parsed" or second == "parsed":
        r, at = parse(env, t, data)
        if not r.ok:
            env.skip("does not parse")
        before = snap(env, t, r.value), at
    a, sibling = make(env, cs, way, data, name)
    b, _ = make(env, cs, second, data, name)
    held = [("another instance", b, snap(env, t, b))]
    if before:
        held.append(("an earlier parsed instance", r.value, before[0]))
    if sibling is not None:
        held.append(("the next element", sibling, snap(env, t, sibling)))
    for i in range(times):
        path, what, f = env.choice(f"step{i}", steps(env, a, lib))
        env.note(f"{path} {what}")
        own = env.canon(a)
        m = env.call(f)
        if m.ok:
            env.reach("element" if what != "=" or type(path[-1]) is int else "mutated")
        if "union" not in DEFS[name]:
            env.check(outside(own, env.canon(a), path), "mutating a part of an instance changed another part", lambda: f"{name} {path} {what}: {a!r}")
    for kind, v, was in held:
        env.check(same(snap(env, t, v), was), "mutating an instance changed another", lambda: f"{kind} of {name} {t}: {v!r}")
    c = t()
    env.check(same(snap(env, t, c), fresh), "mutating an instance changed a later default", lambda: f"{name}: {c!r}")
    d = t.__default__()
    env.check(ceq(env.canon(d), fresh[0]), "mutating an instance changed a later default", lambda: f"{name}: {d!r}")
    env.check(ceq(env.canon(t[2].__default__()), array), "mutating an instance changed a later default array", lambda: name)
    for f, was in members:
        env.check(ceq(env.canon(f.type.__default__()), was), "mutating an instance changed the default of a member's type", lambda: f"{name} {f}")
    if before:
        r, at = parse(env, t, data)
        env.check(r.ok and at == before[1] and same(snap(env, t, r.value), before[0]), "mutating an instance changed what its bytes parse to", lambda: f"{name}: {r!r}")


def inputs(env, name, kind, compiled):
    """A value does not change with the buffer or stream it was read from."""
    cs = env.load(DEFS[name], compiled=compiled)
    t = cs.T
    data = env.bytes("data", SIZE.get(name, 6))
    env.tag = kind
    r, _ = parse(env, t, data)
    if not r.ok:
        env.skip("does not parse")
    was = snap(env, t, r.value)
    if kind == "stream":
        s = env.stream(data)
        v = t(s)
        s.seek(0)
        s.write(bytes(len(data)))
    else:
        x = env.bytearray(data)
        v = t(x if kind == "bytearray" else env.memoryview(x))
        for i in range(len(data)):
            x[i] = 0
    if name != "pointers":
        env.check(same(snap(env, t, v), was), "a value changed with the buffer it was read from", lambda: f"{name} {v!r}")
    env.reach("input")


HIST = """
#define K 2
enum E : uint8 { A, B = 3 };
flag F : uint8 { X = 1, Y = 2 };
struct A1 { uint8 n; uint8 a[n & 1]; uint8 b[K]; };
struct A2 { uint8 n; uint8 a[(n - 1) / (n - 2) & 1]; uint8 z; };
struct B1 { uint8 a : 3; uint8 b : 5; uint16 c : 4; uint16 d : 12; };
struct B2 { uint8 a : 4; };
struct S1 { char a[]; uint8 b; };
struct N1 { uint8 x; A1 y; };
struct P1 { uint8 *p; uint8 v; };
union U1 { uint16 a; uint8 b[2]; struct { uint8 x; uint8 y; } c; };
struct E1 { E e; E g[1]; };
struct F1 { F f; uint8 z; };
struct V1 { uint8 n; E e : 4; uint8 r : 4; uint16 v[n & 1]; };
struct L1 { uleb128 n; wchar w[n & 1]; };
typedef uint16 W2[2];
"""
TARGETS = {"A1": 4, "A2": 3, "B1": 3, "B2": 1, "S1": 3, "N1": 5, "U1": 2, "E1": 2, "F1": 2, "V1": 4, "L1": 3, "W2": 4, "P1": 9, "uint24": 3, "E": 1}


class Broken:
    """A stream that fails at its n-th operation."""

    def __init__(self, data, n):
        self.data, self.n, self.at = data, n, 0

    def count(self):
        if self.n == 0:
            raise OSError("broken")
        self.n -= 1

    def read(self, n=-1):
        self.count()
        r = self.data[self.at :] if n is None or n < 0 else self.data[self.at : self.at + n]
        self.at += len(r)
        return r

    def tell(self):
        self.count()
        return self.at

    def seek(self, offset, whence=0):
        self.count()
        self.at = offset + (0, self.at, len(self.data))[whence]
        return self.at


OPS = {
    "parse A1": lambda env, cs: env.call(cs.A1, bytes([1, 2, 3, 4])),
    "parse A2": lambda env, cs: env.call(cs.A2, bytes([3, 2, 3, 4])),
    "parse B1": lambda env, cs: env.call(cs.B1, env.bytes("h", 3)),
    "parse B2": lambda env, cs: env.call(cs.B2, b"\xff"),
    "parse U1": lambda env, cs: env.call(cs.U1, env.bytes("h", 2)),
    "parse E1": lambda env, cs: [env.call(cs.E1, b"\x07\x15"), env.call(cs.F1, b"\x17\0")],
    "parse W2": lambda env, cs: env.call(cs.W2, b"\1\2\3\4"),
    "parse N1": lambda env, cs: env.call(cs.N1, b"\1\0\2\3\4"),
    "fail A1": lambda env, cs: env.call(cs.A1, b"\1\2"),
    "fail A2": lambda env, cs: env.call(cs.A2, b"\2\2\2\2"),
    "fail B1": lambda env, cs: env.call(cs.B1, b"\1\2"),
    "fail N1": lambda env, cs: env.call(cs.N1, b"\1\1\2"),
    "fail V1": lambda env, cs: env.call(cs.V1, b"\1"),
    "fail U1": lambda env, cs: env.call(cs.U1, b"\1"),
    "fail L1": lambda env, cs: env.call(cs.L1, b"\1\0\xd8"),
    "fail everywhere": lambda env, cs: [env.call(cs.resolve(k), b"\x15\x03\x81\x02\x01\x00\x07\x04\x01"[:i]) for k, n in TARGETS.items() for i in range(n)],
    "fail reading": lambda env, cs: [env.call(cs.resolve(k), Broken(b"\x15\x03\x81\x02\x01\x00\x07\x04\x01" * 2, i)) for k in TARGETS for i in range(9)],
    "fail stream": lambda env, cs: env.call(cs.N1._read, object()),
    "dump": lambda env, cs: [env.call(lambda: t(**k).dumps()) for t, k in ((cs.A1, {"n": 1, "a": [2]}), (cs.B1, {"a": 7, "c": 15}), (cs.E1, {}), (cs.U1, {"a": 513}), (cs.S1, {"a": b"x"}))],
    "fail dump": lambda env, cs: [env.call(lambda: t(**k).dumps()) for t, k in ((cs.A1, {"n": 300}), (cs.B1, {"a": "x"}), (cs.B1, {"a": 1, "c": None, "d": "y"}), (cs.N1, {"x": 1, "y": 5}), (cs.U1, {"a": 70000}))],
    "construct": lambda env, cs: [repr(t()) for t in (cs.A1, cs.B1, cs.E1, cs.U1, cs.V1, cs.N1)],
    "mutate": lambda env, cs: [mess(t()) for t in (cs.A1, cs.B1, cs.E1, cs.U1, cs.V1, cs.N1)],
    "members": lambda env, cs: [cs.E(9), cs.F(12), cs.E(3), cs.F(3), ~cs.F(1), cs.E1(e=cs.E(8)).dumps(), env.call(lambda: cs.E["nope"])],
    "fail load": lambda env, cs: [env.call(cs.load, x) for x in ("struct Q1 { nope x; };", "enum Q2 : nope { A };", "#define\nstruct Q3 { uint8 a[ }", "struct Q4 { uint8 a : 3; nope b; uint8 c[n]; };", "typedef nope Q5;")],
    "load": lambda env, cs: [cs.load("struct Q6 { uint8 n; uint16 a[n + 1]; }; enum QE { QA = 9 }; #define QK 4\ntypedef uint32 Q7[3];", **k) for k in ({"compiled": False},)] + [cs.load("struct Q8 { uint8 a; uint32 b; };", align=True), cs.load("#[nocompile]\nstruct Q9 { uint8 q[QK]; };")],
    "resolve": lambda env, cs: [env.call(cs.resolve, "nope"), env.call(lambda: cs.nope), env.call(cs.add_type, "uint8", "uint16"), cs.resolve("unsigned int"), env.call(cs.read, "A1", b"\1"), env.call(cs.read, "nope", b"")],
    "arrays": lambda env, cs: [env.call(cs.uint8[3], b"\1\2\3"), env.call(cs.A1[2], b"\1\2\3\4\0\1\2\3"), env.call(cs.uint8[None], b"\1\2\0"), env.call(cs.char[4].dumps, b"abcd"), env.call(cs.uint24[2], b"\1\2\3\4\5"), env.call(cs.uint16[2][1], b"\1\2\3\4")],
    "pointers": lambda env, cs: [env.call(lambda: cs.P1(b"\x08" + bytes(7) + b"\5").p.dereference()), env.call(lambda: cs.P1(bytes(9)).p.dereference()), env.call(lambda: cs.P1(b"\xff" + bytes(8)).p.dereference()), env.call(lambda: (cs.P1(b"\x08" + bytes(8)).p + 1).dereference())],
    "show": lambda env, cs: [env.call(lambda: (repr(t()), hash(t()), t() == t(), bool(t()), len(t()))) for t in (cs.A1, cs.B1, cs.E1, cs.U1, cs.P1)] + [env.call(env.lib.dumpstruct, cs.A1(b"\1\2\3\4"), output="string")],
    "expressions": lambda env, cs: [env.call(env.lib.Expression(cs, x).evaluate, {"n": 3}) for x in ("1 + ", "(2 * n", "n - n / (n - 3)", "K + n << 1", ")", "~n + sizeof(A1)", "sizeof(nope)")],
}


def mess(x):
    for k in x.__class__.fields:
        v = getattr(x, k)
        if isinstance(v, list):
            v.append(9)
            v *= 2
        elif hasattr(type(v), "fields"):
            mess(v)
        elif isinstance(v, int) and type(v).__name__ not in ("E", "F"):
            setattr(x, k, 1)


def observed(env, c, target, data):
    t = c.resolve(target)
    r, at = parse(env, t, data)
    d = env.call(lambda: r.value.dumps()) if r.ok and hasattr(r.value, "dumps") else None
    return r, at, d, env.call(t.__default__), describe(env.lib, t)


def history(env, target, first, second, compiled, align, endian):
    opts = {"compiled": compiled, "align": align}
    data = env.bytes("data", TARGETS[target])
    out = [observed(env, env.load(HIST, endian=endian, **opts), target, data)]
    env.reset()  # as in another process
    cs = env.load(HIST, endian=endian, **opts)
    for o in (first, second):
        if o is not None:
            o = env.choice(f"op{o}", o if isinstance(o, list) else [o])
            env.tag = o
            env.call(OPS[o], env, cs)
            if o.startswith("fail"):
                env.reach("failed before")
    out.append(observed(env, cs, target, data))
    (ra, na, da, za, ta), (rb, nb, db, zb, tb) = out
    env.check(ta == tb, "the type depends on what happened before", lambda: f"{ta} {tb}")
    env.check(ra.kind == rb.kind, "the result depends on what happened before", lambda: f"{ra!r} {rb!r}")
    env.check(na == nb, "the bytes consumed depend on what happened before", lambda: f"{na} {nb}")
    if ra.ok:
        env.check(ceq(env.canon(ra.value), env.canon(rb.value)), "the value depends on what happened before", lambda: f"{ra!r} {rb!r}")
        if da is not None:
            env.check(da.kind == db.kind and (not da.ok or env.same(da.value, db.value)), "the dump depends on what happened before", lambda: f"{da!r} {db!r}")
    env.check(za.kind == zb.kind and (not za.ok or ceq(env.canon(za.value), env.canon(zb.value))), "the default depends on what happened before", lambda: f"{za!r} {zb!r}")
    env.reach("history")


# two cstruct objects with definitions of the same names
TWO = (
    "#define K 1\ntypedef uint8 W; enum E : uint8 { A, B = 2 }; struct N { uint8 a; }; struct T { W w; N n; uint8 k[K]; E e; uint16 *p; uint16 v : 4; uint16 u : 12; }; struct D { uint8 n; uint8 y[(n & 1) + K]; };",
    "#define K 2\ntypedef uint16 W; enum E : uint16 { A = 1, B, C }; struct N { uint8 b[2]; }; struct T { uint8 k[K]; W w; N n; E e; uint16 v : 9; uint16 *p; }; struct D { uint8 n; uint8 y[(n & 1) + K]; };",
)


class _Custom:
    pass


def two_ops(env):
    lib = env.lib

    def custom(c, size):
        class Odd(lib.BaseType):
            @classmethod
            def _read(cls, stream, context=None):
                return cls.__new__(cls, stream.read(size)[0]) if False else stream.read(size)[0]

        return c.add_custom_type("Odd", Odd, size) if size else None

    return {
        "load": lambda c, i: c.load(TWO[i]),
        "interpreted": lambda c, i: c.load(TWO[i], compiled=False),
        "aligned": lambda c, i: c.load(TWO[i], align=True),
        "endian": lambda c, i: setattr(c, "endian", ">" if i == 0 else "<"),
        "pointer": lambda c, i: setattr(c, "pointer", c.uint16 if i else c.uint32),
        "replace": lambda c, i: c.add_type("uint24", c.uint8 if i else c.uint32, replace=True),
        "alias": lambda c, i: c.add_type("Alias", "uint16" if i else "uint32", replace=True),
        "constant": lambda c, i: c.consts.__setitem__("K", 2 + i),
        "type": lambda c, i: c.add_type("E", c.uint32, replace=True),
        "lookup": lambda c, i: c.load("#define Z 1\n$look = {'Z': '%d'}" % i),
        "custom": lambda c, i: custom(c, i + 1),
        "failing": lambda c, i: env.call(c.load, "struct T2 { uint8 a; nope b; };"),
        "anonymous": lambda c, i: c.load("struct { struct { uint8 a; }; uint8 b; } AN;"),
        "parse": lambda c, i: env.call(lambda: c.T(bytes(range(1, 40)))),
        "array": lambda c, i: env.call(lambda: c.uint16[2](b"\1\2\3\4")),
        "struct": lambda c, i: c.add_type("M", c._make_struct("M", [lib_field(env, c, "x", "uint16")]), replace=True) if hasattr(c, "_make_struct") else None,
    }


def lib_field(env, c, name, ty):

    return env.lib.Field(name, c.resolve(ty))


def everything(env, c, data):
    """What can be observed of a cstruct object."""
    out = []
    for name in sorted(c.typedefs):
        t = env.call(c.resolve, name)
        if t.ok and (name not in BASE or name in ("uint16", "uint24", "int24", "char", "wchar", "uint32", "uleb128", "void", "float")):
            out.append((name, describe(env.lib, t.value)))
            if name != "void":
                r, at = parse(env, t.value, data if name == "T" else PLAIN)
                out.append((name, env.canon(r.value) if r.ok else ("x", r.kind), at))
    return out, sorted((k, str(v)) for k, v in c.consts.items()), sorted((k, str(sorted(v.items()))) for k, v in c.lookups.items()), c.endian, c.pointer.__name__


BASE = set()
PLAIN = bytes(range(0x41, 0x60))


def two(env, target, steps, first, endians, middle, last):
    """Operations on two cstruct objects, interleaved; each ends up as if it had been alone."""
    ops = two_ops(env)
    lib = env.lib
    BASE.update(lib.cstruct().typedefs)
    env.tag = first
    todo = []
    for i in range(steps):
        o = first if i == 0 else env.choice(f"op{i}", last if i == steps - 1 else middle)
        who = 1 - target if i == 0 else (env.choice(f"who{i}", [0, 1]) if i < steps - 1 else target)
        env.note(f"{o} on {who}")
        todo.append((o, who))
    data = env.bytes("data", 3) + bytes(range(0x81, 0x9B))
    alone = lib.cstruct(endian=endians[target])
    for o, who in todo:
        if who == target:
            env.call(ops[o], alone, target)
    a = everything(env, alone, data)
    env.reset()  # as in another process
    cs = [lib.cstruct(endian=e) for e in endians]
    for o, who in todo:
        env.call(ops[o], cs[who], who)
    b = everything(env, cs[target], data)
    env.check(a[1:] == b[1:], "operations on another cstruct object changed this one", lambda: f"{a[1:]} {b[1:]}")
    env.check(len(a[0]) == len(b[0]), "operations on another cstruct object changed the types of this one")
    for x, y in zip(a[0], b[0]):
        if len(x) == 2:
            env.check(x == y, "operations on another cstruct object changed a type of this one", lambda: f"{x} {y}")
        else:
            env.check(x[0] == y[0] and x[2] == y[2] and x[1][0] == y[1][0], "operations on another cstruct object changed what is parsed", lambda: f"{x} {y}")
            env.check(ceq(x[1], y[1]), "operations on another cstruct object changed what is parsed", lambda: f"{x} {y}")
    env.reach("two objects")


# what two cstruct objects can both have under one name: (declaration, another one of the same size, type, element size)
SHARED = {
    "uint8": ("", None, "uint8", 1), "int16": ("", "uint16", "int16", 2), "uint16": ("", "int16", "uint16", 2), "uint24": ("", "int24", "uint24", 3), "int32": ("", "uint32", "int32", 4),
    "uint48": ("", "int48", "uint48", 6), "uint64": ("", "int64", "uint64", 8), "float": ("", "uint32", "float", 4), "float16": ("", "int16", "float16", 2), "char": ("", "uint8", "char", 1),
    "wchar": ("", "uint16", "wchar", 2), "uleb128": ("", "ileb128", "uleb128", 1), "ileb128": ("", "uleb128", "ileb128", 1),
    "enum": ("enum E : uint16 { A, B };", "enum E : int16 { B = 4, A };", "E", 2), "flag": ("flag E : uint16 { A, B };", "enum E : uint16 { A = 258 };", "E", 2),
    "wide enum": ("enum E : uint24 { A, B };", "enum E : int24 { A = 3 };", "E", 3),
    "struct": ("struct E { uint16 x; uint8 y; };", "struct E { uint8 x; uint16 y; };", "E", 3), "bits": ("struct E { uint16 x : 4; uint16 y : 12; };", "struct E { uint16 x : 5; uint16 y : 11; };", "E", 2),
    "union": ("union E { uint16 x; uint8 y; };", "union E { uint8 x; int16 y; };", "E", 2), "typedef": ("typedef uint32 E;", "typedef int32 E;", "E", 4),
    "array": ("struct E { uint16 x[2]; };", "struct E { uint8 x[4]; };", "E", 4), "anonymous": ("struct E { struct { uint16 x; }; uint8 y; };", "struct E { struct { uint8 x; }; uint16 y; };", "E", 3),
    "nested": ("struct F { uint16 x; }; struct E { F f; uint8 y; };", "struct F { int16 x; }; struct E { F f; uint8 y; };", "E", 3),
    "constant": ("#define N 2\nstruct E { uint8 x[N]; uint16 y[sizeof(uint16) - 1]; };", "#define N 1\nstruct E { uint8 x[N + 1]; uint16 y[N]; };", "E", 4),
    "padded": ("struct E { uint8 x; uint16 y; };", "struct E { uint16 x; uint8 y; };", "E", 4),
}  # fmt: skip
FORMS = ("{t} *p; {t} v;", "{t} *p; {t} v[2];", "{t} *p[1]; uint8 n; {t} v[n];", "{t} **p; {t} v;")


def shared(env, kind, form, differs, compiled, order):
    """Two cstruct objects with a type of the same name, pointers to it and arrays of it: each has its own."""
    lib = env.lib
    decl, second, t, size = SHARED[kind]
    env.tag = f"{kind}, {differs}"
    endian = env.choice("endian", "<>")
    body = FORMS[form].format(t=t)

    def load(which):
        mine = which == 1
        e = endian if mine or differs != "endian" else "><"[endian == ">"]
        width = "uint8" if mine or differs != "width" else "uint16"
        cs = lib.cstruct(endian=e, pointer=width)
        what = decl
        if not mine and differs == "declaration" and second:
            if decl:
                what = second
            else:
                cs.add_type(t, second, replace=True)
        aligned = differs == "aligned" and not mine
        r = env.call(cs.load, f"{what} struct T {{ {body} }};", compiled=compiled if mine or differs != "reader" else not compiled, align=aligned)
        env.check(r.ok, "does not load", lambda: f"{what} {body} {r!r}")
        return cs

    elements = env.bytes("data", 2 * size + 3) if not kind.endswith("leb128") else env.bytes("data", 2) + b"\x85\x52\x11\x01"
    # one pointer, to a pointer, to what follows it
    data = b"\x02\x02" + elements if form == 3 else b"\x01\x01" + elements if form == 2 else b"\x01" + elements

    def outcome(cs):
        stream = env.stream(data)
        r = env.call(cs.T, stream)
        out = [(r.ok, r.kind if not r.ok else env.canon(r.value), stream.tell() if r.ok else None)]
        if r.ok:
            p = r.value.p
            for _ in range(2 if form == 3 else 1):
                p = p[0] if isinstance(p, list) else p
                d = env.call(p.dereference)
                out.append((d.ok, d.kind if not d.ok else env.canon(d.value), None))
                if not d.ok:
                    break
                p = d.value
            w = env.call(r.value.dumps)
            out.append((w.ok, w.kind if not w.ok else ("b", w.value), None))
            out.append((True, ("n", cs.T.size, cs.T.alignment, describe(lib, cs.T)), None))
        return out

    def use(cs):
        env.call(lambda: cs.T(b"\x01" * 40).dumps())
        env.call(lambda: cs.T().dumps())
        env.call(lambda: cs.resolve(t)[2](bytes(range(1, 40))))
        v = env.call(cs.T, bytes([1, 1, *range(3, 40)]))
        if v.ok:
            env.call(lambda: (v.value.p[0] if isinstance(v.value.p, list) else v.value.p).dereference())

    alone = outcome(load(1))
    env.reset()
    if order == "before":
        other = load(0)
        use(other)
        cs = load(1)
    elif order == "after":
        cs = load(1)
        use(load(0))
    else:
        other = load(0)
        cs = load(1)
        use(other)
        use(cs)
        other.load("struct More { uint8 a; };")
    both = outcome(cs)
    env.check(len(alone) == len(both), "another cstruct object changes what is parsed", lambda: f"{body} {alone} {both}")
    for a, b in zip(alone, both):
        env.check(a[0] == b[0] and a[2] == b[2], "another cstruct object changes what is parsed", lambda: f"{decl} {body}: {a} {b}")
        if a[0] and a[1][0] == "b" and not isinstance(a[1], str):
            env.check(a[1][1] == b[1][1], "another cstruct object changes what is dumped", lambda: f"{decl} {body}: {a} {b}")
        elif a[0] and a[1][0] == "n":
            env.check(a[1] == b[1], "another cstruct object changes a type", lambda: f"{decl} {body}: {a} {b}")
        elif a[0]:
            env.check(ceq(a[1], b[1]), "another cstruct object changes what is parsed", lambda: f"{decl} {body}: {a} {b}")
        else:
            env.check(a[1] == b[1], "another cstruct object changes what is parsed", lambda: f"{decl} {body}: {a} {b}")
    env.reach("two objects")


def jobs(tier, lib):
    quick = tier == "quick"
    for i, kind in enumerate(SHARED):
        for f in range(len(FORMS)):
            for j, differs in enumerate(("endian", "width", "declaration", "aligned", "reader")):
                for k, order in enumerate(("before", "after", "between")):
                    if quick and ((i + f + j + k) % 3 or j > 2 and (i + f) % 4 or f == 3 and (i + j) % 3 or f == 1 and kind == "flag"):
                        continue
                    yield Job(shared, {"kind": kind, "form": f, "differs": differs, "compiled": bool((i + j + k // 2) % 2), "order": order}, cost=4)
    for k, name in enumerate(DEFS):
        for j, way in enumerate(WAYS):
            for i, second in enumerate(WAYS[:3] if quick else WAYS):
                if quick and (i + j + k) % 3 and way != second:
                    continue
                yield Job(mutate, {"name": name, "way": way, "second": second, "compiled": bool((i + j) % 2), "align": bool((k + j) % 2), "times": 1 if quick else 2}, cost=10)
        for i, kind in enumerate(("stream", "bytearray", "memoryview")):
            yield Job(inputs, {"name": name, "kind": kind, "compiled": bool((k + i) % 2)}, cost=3)
    ops = list(OPS)
    for k, t in enumerate(TARGETS):
        for c in (False, True):
            for i in range(4):
                yield Job(history, {"target": t, "first": ops[i::4], "second": None, "compiled": c, "align": bool(k % 2), "endian": "<>"[(k + c) % 2]}, cost=20)
        for i, o in enumerate(ops):
            if quick and (i + k) % 9:
                continue
            for j in range(4):
                yield Job(history, {"target": t, "first": o, "second": ops[j::12] if quick else ops[j::4], "compiled": bool(i % 2) and not quick, "align": bool(k % 2), "endian": "<>"[i % 2]}, cost=20)
    ops = ["load", "interpreted", "aligned", "endian", "pointer", "replace", "alias", "constant", "type", "lookup", "custom", "failing", "anonymous", "parse", "array", "struct"]
    for i, o in enumerate(ops):
        for target in (0, 1):
            yield Job(two, {"target": target, "steps": 3 if quick else 4, "first": o, "endians": ["<>", "<<"][i % 2], "middle": ops[i % 2 :: 2] if quick else ops, "last": ["load", "interpreted", "aligned", "endian", "anonymous"] if quick else ops}, cost=30)
