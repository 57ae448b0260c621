"""C16: pointers have the configured width and value, dereference in place, and write their address back."""

from __future__ import annotations

from vse.core import r_from_els
from vse.canon import ceq
from vse.run import Job

WITNESSES = ["dereferenced", "target fails", "null", "without a stream", "arithmetic", "beyond the end", "followed", "chain", "written", "assigned", "stable", "dependent", "string"]
BOUNDS = (
    "pointer widths 8, 16, 24, 32, 48 and 64 bit given to the constructor or set as attribute, both byte orders, both readers, packed and aligned; every address (also beyond the end and beyond what the stream can seek to) "
    "and all contents of streams up to 20 bytes; 29 target types; pointers in 19 positions (member, array, nested, anonymous, union, after bit-fields, alone, to the end of the stream, terminated, behind dynamic fields); "
    "11 arithmetic operators with symbolic or small concrete operands; chains of up to 3 dereferences; the input as stream, bytes, bytearray or memoryview"
)
ASSUMPTIONS = [
    "the pointer type and the byte order are not replaced between making a type and using it (the library then reads with another width than the type has)",
    "dereferencing a void pointer gives None or a void value",
    "an address the stream refuses to seek to raises an error, of whatever kind the stream raises",
]

WIDTH = {"uint8": 1, "uint16": 2, "uint24": 3, "uint32": 4, "uint48": 6, "uint64": 8}

# name -> (definitions, type name); every target is called X
TARGETS = {
    "uint8": "typedef uint8 X;",
    "int16": "typedef int16 X;",
    "uint16": "typedef uint16 X;",
    "uint24": "typedef uint24 X;",
    "float16": "typedef float16 X;",
    "uleb128": "typedef uleb128 X;",
    "char": "typedef char X;",
    "wchar": "typedef wchar X;",
    "char[3]": "typedef char X[3];",
    "uint8[2]": "typedef uint8 X[2];",
    "uint16[]": "typedef uint16 X[];",
    "char[]": "typedef char X[];",
    "wchar[]": "typedef wchar X[];",
    "uint8[EOF]": "typedef uint8 X[EOF];",
    "enum": "enum X : uint8 { A, B, C = 7 };",
    "flag": "flag X : uint16 { A = 1, B = 2, C = 128 };",
    "struct": "struct X { uint8 x; uint16 y; };",
    "bits": "struct X { uint8 x : 3; uint8 y : 5; uint8 z; };",
    "strings": "struct X { uint8 k; char s[]; };",
    "dynamic": "struct X { uint8 n; uint8 v[n & 3]; };",
    "dynamic array": "struct N { uint8 n; uint8 v[n & 1]; }; typedef N X[2];",
    "struct array": "struct N { uint8 x; uint8 y; }; typedef N X[2];",
    "nested": "struct N { uint8 x; }; struct X { N a; struct { uint8 b; }; N c[1]; };",
    "union": "union X { uint16 a; uint8 b[2]; };",
    "dynamic union": "union X { uint8 a; char b[]; };",
    "pointer": "typedef uint8 *X;",
    "pointer struct": "struct X { uint8 x; uint8 *q; };",
    "pointer array": "typedef uint8 *X[2];",
    "void": "typedef void X;",
}
SIMPLE = ["uint8", "struct", "dynamic"]


def up(n, a):
    return n + -n % a


# name -> (definition, [(accessor, offset within T, as a function of width and pointer alignment)], bytes of T)
def places(w, a):
    o = up(1, a)
    return {
        "member": ("struct T { uint8 a; X *p; uint8 z; };", [(lambda t: t.p, o)], up(o + w + 1, a)),
        "first": ("struct T { X *p; uint8 z; };", [(lambda t: t.p, 0)], up(w + 1, a)),
        "two": ("struct T { uint8 a; X *p; X *q; uint8 z; };", [(lambda t: t.p, o), (lambda t: t.q, o + w)], up(o + 2 * w + 1, a)),
        "array": ("struct T { uint8 a; X *p[2]; uint8 z; };", [(lambda t: t.p[0], o), (lambda t: t.p[1], o + w)], up(o + 2 * w + 1, a)),
        "arrays": ("struct T { X *p[2][1]; uint8 z; };", [(lambda t: t.p[1][0], w)], up(2 * w + 1, a)),
        "typedef": ("typedef X *P; struct T { uint8 a; P p; uint8 z; };", [(lambda t: t.p, o)], up(o + w + 1, a)),
        "typedef array": ("typedef X *P[2]; struct T { P p; uint8 z; };", [(lambda t: t.p[1], w)], up(2 * w + 1, a)),
        "nested": ("struct I { X *p; uint8 k; }; struct T { uint8 a; I i; uint8 z; };", [(lambda t: t.i.p, o)], up(o + up(w + 1, a) + 1, a)),
        "nested array": ("struct I { uint8 k; X *p; }; struct T { I i[2]; };", [(lambda t: t.i[1].p, up(o + w, a) + o)], 2 * up(o + w, a)),
        "anonymous": ("struct T { uint8 a; struct { X *p; uint8 k; }; uint8 z; };", [(lambda t: t.p, o)], up(o + up(w + 1, a) + 1, a)),
        "union": ("struct T { uint8 a; union { X *p; uint8 v; } u; uint8 z; };", [(lambda t: t.u.p, o)], up(o + w + 1, a)),
        "anonymous union": ("struct T { uint8 a; union { X *p; uint8 v; }; uint8 z; };", [(lambda t: t.p, o)], up(o + w + 1, a)),
        "in a union": ("union T { struct { X *p; X *q[1]; } s; uint8 v; union { X *r; } u; };", [(lambda t: t.s.p, 0), (lambda t: t.s.q[0], w), (lambda t: t.u.r, 0)], 2 * w),
        "dynamic union": ("union T { X *p; char s[1 + 0]; uint8 e[0]; };", [(lambda t: t.p, 0)], w),
        "after bits": ("struct T { uint8 a : 3; X *p; uint8 b : 4; uint8 z; };", [(lambda t: t.p, o)], up(o + w + 2, a)),
        "alone": ("typedef X *T;", [(lambda t: t, 0)], w),
        "alone array": ("typedef X *T[2];", [(lambda t: t[0], 0), (lambda t: t[1], w)], 2 * w),
        "end": ("struct T { X *p[EOF]; };", [(lambda t: t.p[0], 0)], w),
        "behind dynamic": ("struct T { uint8 n; uint8 v[n & 1]; X *p; uint8 z; };", None, None),
    }


def address(env, data, at, w, endian):
    els = env.els(data)[at : at + w]
    return env.mkint(r_from_els(els[::-1] if endian == "<" else els, False))


def same_bytes(env, a, b):
    n = min(len(a), len(b))
    return env.mkbytes(a[:n]) == env.mkbytes(b[:n])


def target(env, cs, name, data, a):
    """What parsing the target type at an absolute position of the stream gives: (result, stream)."""
    s = env.stream(data)
    t = cs.X
    if name == "char":
        t = t[None]

    def read():
        s.seek(a)
        return t(s)

    return env.call(read)


def check_deref(env, name, cs, other, p, a, data, stream, followed=True):
    """Dereferencing ``p``, which holds the address ``a``, twice: value, errors, position of the stream."""
    lib = env.lib
    at = stream.tell() if stream is not None else None
    env.check(isinstance(p, lib.Pointer), "pointer field is not a pointer", lambda: f"{p!r}")
    env.check(p == a, "pointer has another value than the bytes", lambda: f"{p!r}")
    env.check(env.num(p) == a, "pointer has another value than the bytes", lambda: f"{p!r}")
    first = env.call(p.dereference)
    if stream is not None:
        env.check(stream.tell() == at, "dereferencing moved the stream", lambda: f"{name} {stream.tell()} {at} {first!r}")
        stream.seek(1)
    again = env.call(p.dereference)
    if stream is not None:
        env.check(stream.tell() == 1, "dereferencing again moved the stream", lambda: f"{name} {first!r}")
        stream.seek(at)
    env.check(first.kind == again.kind, "dereferencing again gave something else", lambda: f"{first!r} {again!r}")
    if env.native_bool(a == 0):
        env.reach("null")
        env.check(first.kind == "NullPointerDereference", "null pointer did not raise the null dereference error", lambda: f"{name} {first!r}")
        return first
    env.check(first.kind != "NullPointerDereference", "pointer to somewhere raised the null dereference error", lambda: f"{name} {p!r}")
    if name == "void":
        env.check(first.ok and (first.value is None or isinstance(first.value, lib.Void)), "void pointer gave a value", lambda: f"{first!r}")
        return first
    ref = target(env, other, name, data, a)
    if not ref.ok:
        env.reach("target fails")
        env.check(first.kind == ref.kind, "dereferencing and parsing at the address differ", lambda: f"{name} {first!r} {ref!r}")
        return first
    env.check(first.ok, "dereferencing and parsing at the address differ", lambda: f"{name} {first!r} {ref!r}")
    env.reach("dereferenced")
    x, y = env.canon(first.value), env.canon(ref.value)
    env.check(ceq(x, y), "dereferencing and parsing at the address differ", lambda: f"{name} {first!r} {ref!r}")
    env.check(first.value is again.value or ceq(x, env.canon(again.value)), "dereferencing again gave something else", lambda: f"{first!r} {again!r}")
    if followed and isinstance(first.value, lib.Structure):
        env.reach("followed")
        for k in first.value.__class__.fields:
            v = env.call(getattr, p, k)
            env.check(v.ok and ceq(env.canon(v.value), env.canon(getattr(first.value, k))), "attribute of the target differs through the pointer", lambda: f"{k} {v!r}")
        env.check(stream is None or stream.tell() == at, "reading a target's field moved the stream", lambda: name)
    return first


def set_up(env, text, width, how, endian, compiled, align):
    """The types, and the same types of another interpreted object as the oracle for targets."""
    if how == "constructor":
        cs = env.load(text, endian=endian, pointer=width, compiled=compiled, align=align)
    else:
        cs = env.lib.cstruct(endian=endian)
        cs.pointer = cs.resolve(width)
        env.note(f"pointer = {width}; {text}")
        cs.load(text, compiled=compiled, align=align)
    other = env.load(text, endian=endian, pointer=width, compiled=False, align=align)
    return cs, other


def alignment(width, align):
    return {3: 4, 6: 8}.get(WIDTH[width], WIDTH[width]) if align else 1


def fields(env, targets, place, width, how, endian, compiled, align, extra, start):
    """A pointer somewhere in T: width, value, target, position, and its bytes when dumped."""
    name = env.choice("target", targets)
    env.tag = f"{name} {place} {width}"
    w, a = WIDTH[width], alignment(width, align)
    definition, pointers, size = places(w, a)[place]
    cs, other = set_up(env, TARGETS[name] + " " + definition, width, how, endian, compiled, align)
    t = cs.T
    n = 0
    if place == "behind dynamic":
        size = up(up(2, a) + w + 1, a)
    data = env.bytes("data", start + size + (0 if place == "end" else extra))
    stream = env.stream(data)
    stream.seek(start)
    r = env.call(t, stream)
    if place == "behind dynamic":
        n = 1 if env.native_bool(env.mkint_el(env.els(data)[start]) & 1 == 1) else 0
        o = up(1 + n, a)
        pointers, size = [(lambda t: t.p, o)], up(o + w + 1, a) if align else o + w + 1
    env.check(r.ok, "pointer field can't be parsed", lambda: f"{r!r}")
    env.check(stream.tell() == start + size, "pointer does not have the configured width", lambda: f"{stream.tell()} {size}")
    if place != "behind dynamic" and place != "end":
        env.check(env.call(len, t).value == size, "pointer does not have the configured width", lambda: f"{t.size} {size}")
    v = r.value
    whole = env.canon(v)
    # dereferences of more than one pointer are the subject of order()
    for get, off in [env.choice("pointer", pointers)]:
        p = get(v)
        x = check_deref(env, name, cs, other, p, address(env, data, start + off, w, endian), data, stream)
        if x.kind not in ("ok", "NullPointerDereference"):
            env.reach("beyond the end")
    env.check(ceq(whole, env.canon(v)), "dereferencing changed the value it is in", lambda: f"{v!r}")
    d = env.call(v.dumps)
    env.check(d.ok, "pointers can't be dumped", lambda: f"{d!r}")
    out, els = env.els(d.value), env.els(data)
    for get, off in pointers:
        env.check(len(out) >= off + w and same_bytes(env, out[off : off + w], els[start + off : start + off + w]), "dumping changed the address", lambda: f"{d.value!r} {data!r}")
    if place != "behind dynamic":
        env.check(len(out) == size, "dumping changed the width of a pointer", lambda: f"{d.value!r} {data!r}")
    env.reach("written")


OPERATORS = {
    "+": (lambda p, k: p + k, "wide"),
    "-": (lambda p, k: p - k, "wide"),
    "&": (lambda p, k: p & k, "wide"),
    "|": (lambda p, k: p | k, "wide"),
    "^": (lambda p, k: p ^ k, "wide"),
    "*": (lambda p, k: p * k, "small"),
    "//": (lambda p, k: p // k, "positive"),
    "%": (lambda p, k: p % k, "positive"),
    "<<": (lambda p, k: p << k, "small"),
    ">>": (lambda p, k: p >> k, "small"),
    "**": (lambda p, k: p**k, "power"),
}


def operand(env, kind, p):
    if kind == "wide":
        what = env.choice("operand", ["symbolic", "negative", "pointer"])
        if what == "pointer":
            return p
        return env.int("k", 0, 9) if what == "symbolic" else env.int("k", -9, -1)
    return {"small": lambda: env.choice("k", [0, 1, 2]), "positive": lambda: env.choice("k", [1, 2, 3]), "power": lambda: env.choice("k", [0, 1, 2])}[kind]()


def arithmetic(env, name, op, width, endian, compiled, twice):
    """The result of an operator is a pointer of the same type to the computed address on the same stream."""
    w = WIDTH[width]
    cs, other = set_up(env, TARGETS[name] + " struct T { uint8 a; X *p; uint8 z; };", width, "constructor", endian, compiled, False)
    data = env.bytes("data", w + 4)
    stream = env.stream(data)
    v = cs.T(stream)
    p = v.p
    a = address(env, data, 1, w, endian)
    f, kind = OPERATORS[op]
    env.tag = f"{name} {op} {width}"
    if env.native_bool(env.choice("before", [0, 1]) == 1):
        env.call(p.dereference)
    k = operand(env, kind, p)
    if kind == "power" and w > 2:
        env.assume(a < 1 << 16)
    q = f(p, k)
    b = f(a, a if k is p else k)
    if twice:
        q, b = q + 1, b + 1
    env.check(type(q) is type(p), "arithmetic gave another type", lambda: f"{type(q)} {type(p)}")
    env.check(p == a, "arithmetic changed the pointer", lambda: f"{p!r}")
    check_deref(env, name, cs, other, q, b, data, stream)
    env.reach("arithmetic")
    check_deref(env, name, cs, other, p, a, data, stream)
    # assigned and dumped
    if env.branch(env.both(b >= 0, b < 1 << (8 * w))):
        v.p = q
        d = env.call(v.dumps)
        env.check(d.ok, "the result of arithmetic can't be dumped", lambda: f"{d!r}")
        env.check(len(d.value) == w + 2 and address(env, d.value, 1, w, endian) == b, "dumping changed the address", lambda: f"{d!r}")
        r = env.call(cs.T, d.value)
        env.check(r.ok and r.value.p == b, "dumping changed the address", lambda: f"{d!r} {r!r}")
        env.reach("assigned")


def streamless(env, name, place, width, compiled, align):
    """Pointers that were not read from a stream."""
    w, a = WIDTH[width], alignment(width, align)
    definition, pointers, size = places(w, a)[place]
    cs, _ = set_up(env, TARGETS[name] + " " + definition, width, "constructor", "<", compiled, align)
    env.tag = f"{name} {place} {width}"
    v = cs.T.__default__()
    k = env.int("k", 0, 20)
    for get, _ in pointers:
        p = get(v)
        env.check(isinstance(p, env.lib.Pointer) and p == 0, "the default of a pointer is not null", lambda: f"{p!r}")
        for q in (p, p + k, (p + k) - 1, p | 4):
            r = env.call(q.dereference)
            env.check(r.kind == "NullPointerDereference", "pointer without a stream did not raise the null dereference error", lambda: f"{q!r} {r!r}")
            env.check(type(q) is type(p), "arithmetic gave another type", lambda: f"{type(q)} {type(p)}")
        for f in (lambda: p.x, lambda: str(p), lambda: str(p + 3)):
            r = env.call(f)
            env.check(r.kind == "NullPointerDereference", "pointer without a stream did not raise the null dereference error", lambda: f"{r!r}")
        env.check(env.call(repr, p).ok, "pointer has no representation", None)
    d = env.call(v.dumps) if hasattr(v, "dumps") else env.call(cs.T.dumps, v)
    env.check(d.ok and len(d.value) == size, "default pointers can't be dumped", lambda: f"{d!r}")
    env.check(d.value == bytes(size), "the default of a pointer is not null", lambda: f"{d!r}")
    env.reach("without a stream")


def chain(env, kind, width, endian, compiled):
    """Pointers found behind pointers are pointers on the same stream."""
    w = WIDTH[width]
    text = {
        "list": "struct X { X *next; uint8 v; }; struct T { X *p; uint8 z; };",
        "pointers": "typedef uint8 *P; typedef P *Q; struct T { Q *p; uint8 z; };",
        "stars": "struct T { uint8 ***p; uint8 z; };",
        "arrays": "typedef uint8 *P[1]; struct Q { P *q; }; struct T { Q *p; uint8 z; };",
        "union": "union U { uint8 *u; uint8 v; }; struct Q { U u; }; struct T { Q *p; uint8 z; };",
        "unions": "union U { struct { uint8 *u; } s; uint8 v; }; union T { U *p; uint8 z; };",
    }[kind]
    env.tag = f"{kind} {width}"
    cs, _ = set_up(env, text, width, "constructor", endian, compiled, False)
    data = env.bytes("data", w + 2)
    stream = env.stream(data)
    t = cs.T(stream)
    at = stream.tell()
    els = env.els(data)
    steps = {
        "list": [lambda p: p.dereference().next, lambda p: p.dereference().next, lambda p: p.dereference().v],
        "pointers": [lambda p: p.dereference(), lambda p: p.dereference(), lambda p: p.dereference()],
        "stars": [lambda p: p.dereference(), lambda p: p.dereference(), lambda p: p.dereference()],
        "arrays": [lambda p: p.q, lambda p: p.dereference()[0], lambda p: p.dereference()],
        "union": [lambda p: p.u.u, lambda p: p.dereference()],
        "unions": [lambda p: p.s.u, lambda p: p.dereference()],
    }[kind]
    p, a = t.p, address(env, data, 0, w, endian)
    for i, f in enumerate(steps):
        r = env.call(f, p)
        env.check(stream.tell() == at, "dereferencing moved the stream", lambda: f"{r!r}")
        if env.native_bool(a == 0):
            env.check(r.kind == "NullPointerDereference", "null pointer did not raise the null dereference error", lambda: f"{r!r}")
            return
        last = i == len(steps) - 1
        size = {("list", True): w + 1, ("list", False): w + 1}.get((kind, last), 1 if last else w)
        # what is at the address
        if env.native_bool(a > len(els) - size):
            env.check(not r.ok and r.kind != "NullPointerDereference", "pointer behind the end gave a value", lambda: f"{i} {r!r}")
            return
        env.check(r.ok, "pointer behind a pointer can't be followed", lambda: f"{i} {r!r}")
        at_ = next(k for k in range(len(els)) if env.native_bool(a == k))
        if last:
            b = env.mkint_el(els[at_ + (w if kind == "list" else 0)])
        else:
            b = address(env, data, at_, w, endian)
        env.check(r.value == b, "pointer behind a pointer has another value", lambda: f"{i} {r!r}")
        p, a = r.value, b
    env.reach("chain")


def inputs(env, kind, name, width, compiled):
    """The stream of a pointer read from an object that is no stream is that object."""
    w = WIDTH[width]
    cs, other = set_up(env, TARGETS[name] + " struct T { uint8 a; X *p; uint8 z; };", width, "constructor", ">", compiled, False)
    data = env.bytes("data", w + 4)
    env.tag = f"{kind} {name}"
    a = address(env, data, 1, w, ">")
    if kind == "bytearray":
        x = env.bytearray(data)
    elif kind == "memoryview":
        x = env.memoryview(data)
    else:
        x = data
    how = env.choice("how", ["call", "reads", "read", "array"])
    if how == "reads":
        v = cs.T.reads(x)
    elif how == "read":
        v = cs.T.read(env.stream(data))
    elif how == "array":
        v = cs.T[1](x)[0]
    else:
        v = cs.T(x)
    check_deref(env, name, cs, other, v.p, a, data, None)


def order(env, first, second, name, width, endian, compiled):
    """Two pointers on one stream, dereferenced between other reads from it."""
    w = WIDTH[width]
    cs, other = set_up(env, TARGETS[name] + " struct T { X *p; X *q; };", width, "constructor", endian, compiled, False)
    data = env.bytes("data", 4 * w + 2)
    stream = env.stream(data)
    env.tag = f"{name} {first} {second}"
    v = cs.T(stream)
    a, b = address(env, data, 0, w, endian), address(env, data, w, w, endian)
    env.assume(env.both(a <= 3, b <= 3))
    for what in (first, second):
        if what == "p":
            check_deref(env, name, cs, other, v.p, a, data, stream)
        elif what == "q":
            check_deref(env, name, cs, other, v.q, b, data, stream)
        elif what == "more":
            at = stream.tell()
            y = env.call(cs.T, stream)
            ref = env.call(other.T, data[at:])
            env.check(y.kind == ref.kind and (not y.ok or ceq(env.canon(y.value), env.canon(ref.value))), "reading on after a dereference differs", lambda: f"{y!r} {ref!r}")
            stream.seek(at)
        elif what == "dump":
            env.check(v.dumps() == env.mkbytes(env.els(data)[w : 2 * w] * 2 if "assign" in (first,) else env.els(data)[: 2 * w]), "dumping changed the address", lambda: f"{v!r}")
        elif what == "assign":
            v.p = v.q
            a = b
            data_now = env.mkbytes(env.els(data)[w : 2 * w] + env.els(data)[w : 2 * w])
            env.check(v.dumps() == data_now, "dumping changed the address", lambda: f"{v!r}")
    check_deref(env, name, cs, other, v.p, a, data, stream)
    check_deref(env, name, cs, other, v.q, b, data, stream)


def stable(env, name, place, width, endian, compiled):
    """What a pointer gave once it gives again, whatever was written to the stream or done to the other pointers in between."""
    w = WIDTH[width]
    definition, pointers, size = places(w, 1)[place]
    cs, other = set_up(env, TARGETS[name] + " " + definition, width, "constructor", endian, compiled, False)
    env.tag = f"{name} {place} {width}"
    data = env.bytes("data", size + 3)
    stream = env.stream(data)
    v = cs.T(stream)
    get, off = pointers[-1]
    p = get(v)
    a = address(env, data, off, w, endian)
    env.assume(env.both(a >= size, a < size + 3))
    first = env.call(p.dereference)
    ref = target(env, other, name, data, a)
    env.check(first.kind == ref.kind, "dereferencing and parsing at the address differ", lambda: f"{name} {first!r} {ref!r}")
    if not first.ok:
        # nothing was remembered: what is there now can be read
        env.skip("the target can't be read")
    x = env.canon(first.value)
    env.check(ceq(x, env.canon(ref.value)), "dereferencing and parsing at the address differ", lambda: f"{name} {first!r} {ref!r}")
    stream.seek(size)
    stream.write(env.bytes("new", 3))
    at = stream.tell()
    env.call((p + 1).dereference)
    env.call((p & 1).dereference)
    again = env.call(p.dereference)
    env.check(again.ok and ceq(x, env.canon(again.value)), "dereferencing again gave something else", lambda: f"{name} {first!r} {again!r}")
    env.check(stream.tell() == at, "dereferencing again moved the stream", lambda: name)
    same = env.call(get(v).dereference)
    env.check(same.ok and ceq(x, env.canon(same.value)), "dereferencing again gave something else", lambda: f"{name} {first!r} {same!r}")
    env.reach("stable")


def dependent(env, kind, op, width, endian, compiled):
    """The length of a target is that of the structure the pointer is in, also after arithmetic."""
    w = WIDTH[width]
    text, get, n_at, p_at = {
        "member": ("struct T { uint8 n; X *p; uint8 z; };", lambda t: t.p, 0, 1),
        "array": ("struct T { uint8 n; X *p[2]; };", lambda t: t.p[1], 0, 1 + w),
        "nested": ("struct I { uint8 n; X *p; }; struct T { uint8 m; I i; uint8 z; };", lambda t: t.i.p, 1, 2),
        "elements": ("struct I { uint8 n; X *p; }; struct T { I i[2]; uint8 n; };", lambda t: t.i[1].p, 1 + w, 2 + w),
    }[kind]
    env.tag = f"{kind} {op} {width}"
    cs, _ = set_up(env, "typedef uint8 X[n]; " + text, width, "constructor", endian, compiled, False)
    data = env.bytes("data", 2 * w + 5)
    els = env.els(data)
    stream = env.stream(data)
    r = env.call(cs.T, stream)
    env.check(r.ok, "pointer field can't be parsed", lambda: f"{r!r}")
    p, a = get(r.value), address(env, data, p_at, w, endian)
    n = env.mkint_el(els[n_at])
    env.assume(n <= 3)
    if op is not None:
        f, k = OPERATORS[op][0], 2 if op == "**" else 1
        env.assume(a < 32)
        p, a = f(p, k), f(a, k)
    env.assume(env.both(a >= 1, a <= len(els) + 1))
    at = stream.tell()
    d = env.call(p.dereference)
    env.check(stream.tell() == at, "dereferencing moved the stream", lambda: f"{d!r}")
    n = next(i for i in range(4) if env.native_bool(n == i))
    if env.native_bool(a > len(els) - n):
        env.check(n == 0 and d.ok and d.value == [] or not d.ok and d.kind == "EOFError", "pointer behind the end gave a value", lambda: f"{d!r}")
        return
    a = next(k for k in range(len(els)) if env.native_bool(a == k)) if n else 0
    env.check(d.ok and len(d.value) == n, "the target has another length than its structure says", lambda: f"{n} {d!r}")
    env.check(env.mkbytes(els[a : a + n]) == bytes(d.value) if not n else all(env.native_bool(x == env.mkint_el(e)) for x, e in zip(d.value, els[a : a + n])), "dereferencing and parsing at the address differ", lambda: f"{d!r}")
    env.reach("dependent")


def strings(env, name, before, width, endian, compiled):
    """Strings of any length: constant characters, then symbolic ones with the terminator somewhere."""
    w = WIDTH[width]
    cs, other = set_up(env, TARGETS[name] + " struct T { X *p; uint8 z; };", width, "constructor", endian, compiled, False)
    env.tag = f"{name} {before} {width}"
    k = 2 if "wchar" in name else 1
    e = "little" if endian == "<" else "big"
    tail = env.bytes("tail", 3 * k)
    if k == 2:
        for i in range(0, 6, 2):
            env.assume(env.either(env.mkint_el(env.els(tail)[i if endian == ">" else i + 1]) < 0xD8, env.mkint_el(env.els(tail)[i if endian == ">" else i + 1]) > 0xDF))
    head = (w + 1).to_bytes(w, e) + b"z" + ((0x41).to_bytes(k, e) * before)
    data = env.mkbytes([*head, *env.els(tail), *((0x42).to_bytes(k, e)), *([0] * k), 0x43, 0x43])
    stream = env.stream(data)
    v = cs.T(stream)
    d = env.call(v.p.dereference)
    env.check(stream.tell() == w + 1, "dereferencing moved the stream", lambda: f"{d!r}")
    env.check(d.ok, "a string can't be dereferenced", lambda: f"{d!r}")
    n = next((i for i in range(3) if env.native_bool(env.mkbytes(env.els(tail)[i * k : i * k + k]) == bytes(k))), 4)
    text = [*head[w + 1 :], *env.els(tail)[: n * k], *((0x42).to_bytes(k, e) if n == 4 else b"")]
    s = d.value.s if name == "strings" else d.value
    if name == "strings":
        env.check(d.value.k == text[0], "dereferencing and parsing at the address differ", None)
        text = text[1:]
    env.check(len(s) == len(text) // k, "a string has another length", lambda: f"{d!r}")
    ref = target(env, other, name, data, w + 1)
    env.check(ref.ok and ceq(env.canon(d.value), env.canon(ref.value)), "dereferencing and parsing at the address differ", lambda: f"{d!r} {ref!r}")
    if k == 1:
        env.check(env.mkbytes(env.els(s)) == env.mkbytes(text), "a string has other characters", lambda: f"{d!r}")
    env.reach("string")


def jobs(tier, lib):
    quick = tier == "quick"
    widths = list(WIDTH)
    names = list(TARGETS)
    k = 0
    for place in places(1, 1):
        for i, width in enumerate(widths):
            for c in (False, True):
                k += 1
                for e in "<>":
                    for al in (False, True):
                        if al and width in ("uint24", "uint48"):
                            continue
                        if quick and (i + (e == "<") + al + c + k) % 5:
                            continue
                        ts = SIMPLE if quick else names
                        ts = [x for x in ts if not (place == "arrays" and x == "char[]")]
                        for t in [ts] if quick else [ts[j::7] for j in range(7)]:
                            yield Job(fields, {"targets": t, "place": place, "width": width, "how": ["constructor", "attribute"][k % 2], "endian": e, "compiled": c, "align": al, "extra": 1 if quick else 3, "start": 0 if al else k % 3}, cost=20)
    for i, name in enumerate(names):
        for j, width in enumerate(("uint8", "uint16", "uint64") if quick else widths):
            for c in (False, True):
                e = "<>"[(i + j + c) % 2]
                yield Job(fields, {"targets": [name], "place": ["member", "first"][(i + j) % 2], "width": width, "how": "constructor", "endian": e, "compiled": c, "align": False, "extra": 2 if quick else 4, "start": (i + j) % 2}, cost=15)
        for place in ("member", "array") if quick else ("member", "array", "nested array", "in a union", "anonymous"):
            yield Job(streamless, {"name": name, "place": place, "width": widths[i % 6], "compiled": bool(i % 2), "align": bool(i % 3 == 0) and i % 6 not in (2, 4)}, cost=2)
    for place in places(1, 1):
        if place not in ("end", "behind dynamic"):
            yield Job(streamless, {"name": "struct", "place": place, "width": "uint16", "compiled": True, "align": False}, cost=2)
    for i, op in enumerate(OPERATORS):
        for j, name in enumerate(["uint8", "struct", "uint16"] if quick else ["uint8", "struct", "char", "dynamic", "pointer", "enum", "union", "void"]):
            for k, width in enumerate(["uint8", "uint16", "uint64"] if quick else widths):
                if quick and (i + j + k) % 2 and j:
                    continue
                yield Job(arithmetic, {"name": name, "op": op, "width": width, "endian": "<>"[(i + k) % 2], "compiled": bool((i + j) % 2), "twice": bool((j + k) % 2)}, cost=6)
    for i, kind in enumerate(("list", "pointers", "stars", "arrays", "union", "unions")):
        for j, width in enumerate(["uint8", "uint16", "uint32"] if quick else widths):
            for c in (False, True):
                yield Job(chain, {"kind": kind, "width": width, "endian": "<>"[(i + j + c) % 2], "compiled": c}, cost=30)
    for i, kind in enumerate(("bytes", "bytearray", "memoryview")):
        for j, name in enumerate(("uint8", "char", "struct", "dynamic", "uint16[]")):
            yield Job(inputs, {"kind": kind, "name": name, "width": widths[(i + j) % 6], "compiled": bool((i + j) % 2)}, cost=30)
    whats = ("p", "q", "more", "dump", "assign")
    for i, first in enumerate(whats):
        for j, second in enumerate(whats):
            if first != second:
                for name in ("uint8", "strings") if quick else names:
                    yield Job(order, {"first": first, "second": second, "name": name, "width": ["uint8", "uint16"][(i + j) % 2], "endian": "<>"[j % 2], "compiled": bool(i % 2)}, cost=30)
    for i, name in enumerate(names):
        if name not in ("void", "flag"):
            for j, place in enumerate(("member", "array", "nested", "union") if not quick else (("member", "array", "nested")[i % 3],)):
                yield Job(stable, {"name": name, "place": place, "width": ("uint8", "uint16", "uint32")[(i + j) % 3], "endian": "<>"[(i + j) % 2], "compiled": bool(i % 4 > 1)}, cost=30)
    for i, kind in enumerate(("member", "array", "nested", "elements")):
        for j, op in enumerate((None, *OPERATORS)):
            if quick and op is not None and kind not in ("member", "elements")[j % 2 :][:1]:
                continue
            yield Job(dependent, {"kind": kind, "op": op, "width": ("uint8", "uint16")[(i + j) % 2], "endian": "<>"[j % 2], "compiled": bool((i + j) % 3)}, cost=30)
    for i, name in enumerate(("char", "char[]", "wchar[]", "strings")):
        for j, before in enumerate((62, 126, 254, 510, 1022) if quick else (1, 14, 30, 62, 126, 254, 510, 1022, 2046, 4094)):
            yield Job(strings, {"name": name, "before": before, "width": ("uint16", "uint32", "uint64")[(i + j) % 3], "endian": "<>"[j % 2], "compiled": bool((i + j) % 2)}, cost=30)
