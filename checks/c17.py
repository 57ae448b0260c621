"""C17: field-wise equality, consistent hash and truth, construction by value, local assignment."""

from __future__ import annotations

from spec import menu as M
from vse.canon import ceq
from vse.core import b_and, b_not, b_or
from vse.run import Job
from vse.values import SFloat

from .common import CONFIGS, pick

WITNESSES = ["equal", "unequal", "hashed", "truthy", "falsy", "constructed", "zero", "assigned", "bits", "element", "another type", "unhashable"]
BOUNDS = (
    "equality, hash and truth of two instances parsed from two symbolic byte strings, for every fragment of spec/menu.py alone and behind another, and pairs of core fragments (variable-length ones with up to 2, thorough 4, spare bytes); "
    "structures of 41, 65, 130 and 260 fields with symbolic bytes around those positions; 0 to 24 (thorough 300) fields, under names that repeat in another order in up to 5 other classes of the same field count, defined before or after; names that occur in the generated code; "
    "construction: every subset of up to 4 members, positional, keyword or mixed, with symbolic values; assignment: every member, element, nested member, folded member and bit-field of 40 fixed-size definitions, "
    "on parsed, default and constructed instances, one (thorough: two) assignments of symbolic values, in both byte orders, packed and aligned, both readers"
)
ASSUMPTIONS = [
    "an instance that holds a NaN is only compared with others (Python compares an object with itself by identity first)",
    "a single positional bytes-like argument is input to parse unless the structure is one char field",
    "a union is constructed from one value (its members overlap)",
    "members of an anonymous structure are not constructor arguments",
]


FLOAT = (float, SFloat)


# -- reference semantics ---------------------------------------------------------------------------------------


def iff(env, x, y):
    x, y = env.both(x), env.both(y)
    return b_or(b_and(x, y), b_and(b_not(x), b_not(y)))


def plain(env, x):
    """The target of a proxy."""
    while type(x).__name__ == "UnionProxy":
        x = object.__getattribute__(x, "__target__")
    return x


def ref_eq(env, x, y):
    """Condition: two field values are equal."""
    lib = env.lib
    x, y = plain(env, x), plain(env, y)
    if isinstance(x, lib.Structure) or isinstance(y, lib.Structure):
        if type(x) is not type(y):
            return False
        return b_and(*[ref_eq(env, getattr(x, k), getattr(y, k)) for k in type(x).fields])
    if isinstance(x, list):
        return b_and(len(x) == len(y), *[ref_eq(env, p, q) for p, q in zip(x, y)]) if isinstance(y, list) else False
    if isinstance(x, FLOAT):
        return env.both(x == y)
    return ceq(env.canon(x), env.canon(y))


def ref_bool(env, x):
    """Is a field value truthy (may fork)."""
    x = plain(env, x)
    if isinstance(x, env.lib.Structure):
        return any(ref_bool(env, getattr(x, k)) for k in type(x).fields)
    if isinstance(x, list):
        return len(x) > 0
    return env.native_bool(x)


def compare(env, t, a, b, what):
    """Everything the property says about two instances of one type."""
    names = list(t.fields)
    ref = b_and(*[ref_eq(env, getattr(a, k), getattr(b, k)) for k in names])
    r, n, rev = env.call(lambda: a == b), env.call(lambda: a != b), env.call(lambda: b == a)
    env.check(r.ok and n.ok and rev.ok, "instances can't be compared", lambda: f"{what} {r!r} {n!r}")
    env.check(iff(env, r.value, ref), "equality is not equality of the fields", lambda: f"{what}: {a!r} {b!r} {r!r}")
    env.check(iff(env, n.value, b_not(ref)), "inequality is not inequality of the fields", lambda: f"{what}: {a!r} {b!r} {n!r}")
    env.check(iff(env, rev.value, ref), "equality is not symmetric", lambda: f"{what}: {a!r} {b!r} {rev!r}")
    ha, hb = env.call(env.hash, a), env.call(env.hash, b)
    if ha.ok and hb.ok:
        env.reach("hashed")
        env.check(b_or(b_not(ref), env.both(ha.value == hb.value)), "equal instances hash differently", lambda: f"{what}: {a!r} {b!r}")
    else:
        env.reach("unhashable")
        env.check(not ha.ok and ha.kind == "TypeError" or not hb.ok and hb.kind == "TypeError", "hashing failed", lambda: f"{what} {ha!r} {hb!r}")
    return ref


def truth(env, t, a, what):
    r = env.call(env.native_bool, a)
    env.check(r.ok, "instance has no truth value", lambda: f"{what} {r!r}")
    want = False
    for k in t.fields:
        if ref_bool(env, getattr(a, k)):
            want = True
            break
    env.reach("truthy" if want else "falsy")
    env.check(r.value == want, "truth is not that of the fields", lambda: f"{what}: {a!r} {r!r}")


def equality(env, prefix, options, endian, align, compiled, extra):
    keys, st, cfg, n = pick(env, prefix, options, endian, align, compiled, extra)
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled)
    t = cs.T
    a = env.call(t, env.stream(env.bytes("a", n)))
    b = env.call(t, env.stream(env.bytes("b", n)))
    if not a.ok or not b.ok:
        env.skip("does not parse")
    ref = compare(env, t, a.value, b.value, st.source())
    if ref is True or env.branch(ref):
        env.reach("equal")
    else:
        env.reach("unequal")


def truths(env, prefix, options, endian, align, compiled, extra):
    keys, st, cfg, n = pick(env, prefix, options, endian, align, compiled, extra)
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled)
    a = env.call(cs.T, env.stream(env.bytes("a", n)))
    if not a.ok:
        env.skip("does not parse")
    truth(env, cs.T, a.value, st.source())


# -- generated methods -----------------------------------------------------------------------------------------


def names_for(kind, n):
    """Names of n fields."""
    if kind == "plain":
        return [f"f{i}" for i in range(n)]
    if kind == "reversed":
        return [f"f{i}" for i in range(n)][::-1]
    if kind == "rotated":
        return [f"f{(i + 1) % n}" for i in range(n)] if n else []
    if kind == "template":
        return [f"_{n - 1 - i}" for i in range(n)]
    if kind == "odd":
        odd = ["self", "other", "any", "hash", "cls", "args", "kwargs", "__default__", "_1", "_0", "None_", "type", "fields", "lookup", "size", "setattr", "object", "name", "value", "obj"]
        return (odd + [f"g{i}" for i in range(n)])[:n]
    return [f"{kind}{i}" for i in range(n)]


def some_bytes(env, name, n, fill):
    """Up to 40 symbolic bytes; of more, those at the edges and in the middle are."""
    if n <= 40:
        return env.bytes(name, n)
    at = {0, 1, 2, 31, 32, 63, 64, n // 2, 127, 128, 129, 253, 254, 255, 256, n - 2, n - 1}
    return env.mixed(name, [None if i in at else (i * 7 + 1) % 256 if fill else 0 for i in range(n)])


def counts(env, n, kinds, union, subject, compiled, member, fill=True):
    """Classes with the same number of fields and different names share code templates."""
    cs = env.lib.cstruct()
    env.tag = f"{n} {kinds} {subject}"
    body = {"uint8": lambda k: f"uint8 {k};", "array": lambda k: f"uint8 {k}[1];", "struct": lambda k: f"struct {{ uint8 v; }} {k};"}[member]
    for i, kind in enumerate(kinds):
        text = f"{'union' if union else 'struct'} C{i} {{ {' '.join(body(k) for k in names_for(kind, n))} }};"
        env.note(text)
        cs.load(text, compiled=compiled)
    t = getattr(cs, f"C{subject}")
    names = names_for(kinds[subject], n)
    env.check(list(t.fields) == names, "fields are not those of the definition", lambda: f"{list(t.fields)}")
    xs, ys = env.els(some_bytes(env, "a", n, fill)), env.els(some_bytes(env, "b", n, fill))

    def val(e, k):
        v = env.mkint_el(e)
        if member == "uint8":
            return v
        ft = t.fields[k].type
        return ft([v]) if member == "array" else ft(v=v)

    def get(x, k):
        x = getattr(x, k)
        return x if member == "uint8" else x[0] if member == "array" else x.v

    d = t()
    for k in names:
        env.check(get(d, k) == 0 if member != "array" else len(getattr(d, k)) == 1 and getattr(d, k)[0] == 0, "default is not zero", lambda: f"{d!r}")
    env.check(not env.native_bool(d), "default is not falsy", lambda: f"{d!r}") if member != "array" else None
    if union:
        if not n:
            return
        i = env.choice("which", sorted({0, n // 2, n - 1}))
        a = t(**{names[i]: val(xs[i], names[i])})
        b = t(**{names[i]: val(ys[i], names[i])})
        want_a, want_b = [env.mkint_el(xs[i])] * n, [env.mkint_el(ys[i])] * n
    else:
        a = t(*[val(x, k) for x, k in zip(xs, names)]) if n != 1 or member == "uint8" else t(**{names[0]: val(xs[0], names[0])}) if n else t()
        how = env.choice("how", ["keywords", "shuffled", "assigned"])
        if how == "keywords":
            b = t(**{k: val(y, k) for y, k in zip(ys, names)})
        elif how == "shuffled":
            b = t(**{k: val(y, k) for y, k in reversed(list(zip(ys, names)))})
        else:
            b = t()
            for y, k in zip(ys, names):
                setattr(b, k, val(y, k))
        want_a, want_b = [env.mkint_el(x) for x in xs], [env.mkint_el(y) for y in ys]
    for x, want in ((a, want_a), (b, want_b)):
        env.check(env.both(True, *[get(x, k) == w for k, w in zip(names, want)]), "constructing does not give the fields their values", lambda: f"{x!r}")
    env.check(a.dumps() == env.mkbytes(xs if not union else [xs[i]]), "constructing does not give the fields their values", lambda: f"{a!r} {a.dumps()!r}")
    ref = env.both(True, *[p == q for p, q in zip(want_a, want_b)])
    env.check(iff(env, a == b, ref), "equality is not equality of the fields", lambda: f"{a!r} {b!r}")
    env.check(iff(env, a != b, b_not(ref)), "inequality is not inequality of the fields", lambda: f"{a!r} {b!r}")
    if member == "uint8":
        env.check(b_or(b_not(ref), env.both(env.hash(a) == env.hash(b))), "equal instances hash differently", lambda: f"{a!r} {b!r}")
    if member != "array":
        some = env.either(False, *[x != 0 for x in want_a])
        env.check(iff(env, env.native_bool(a), some), "truth is not that of the fields", lambda: f"{a!r}")
    # no other class answers for this one
    for j in range(len(kinds)):
        if j != subject:
            o = getattr(cs, f"C{j}")
            if not n:
                c = o()
            else:
                c = o(**{k: (v if member == "uint8" else o.fields[k].type([v]) if member == "array" else o.fields[k].type(v=v)) for k, v in list(zip(names_for(kinds[j], n), want_a))[: 1 if union else n]})
            env.check(not env.native_bool(a == c) and env.native_bool(a != c), "instances of different types are equal", lambda: f"{a!r} {c!r}")
    env.reach("another type")
    env.reach("constructed")


# -- construction ----------------------------------------------------------------------------------------------

BUILD = {
    "scalars": "struct T { uint8 a; int16 b; char c; wchar d; };",
    "more": "struct T { uint24 a; float b; uint64 c; int128 d; };",
    "arrays": "struct T { uint8 a[2]; int24 b[1]; char c[3]; wchar d[2]; };",
    "nested arrays": "struct T { uint8 a[2][2]; char b[2][2]; uint16 c; };",
    "structs": "struct N { uint8 x; uint16 y; }; struct T { N a; uint8 b; struct { uint8 z; } c; N d[2]; };",
    "unions": "union N { uint8 x; uint16 y; }; struct T { N a; uint8 b; N c[1]; };",
    "anonymous": "struct T { uint8 a; struct { uint8 b; uint8 c; }; uint8 d; union { uint8 e; uint16 f; }; };",
    "enums": "enum E : uint8 { A, B = 5 }; struct T { E a; uint8 b; E c[1]; };",
    "flags": "flag F : uint8 { X = 1, Y = 2 }; struct T { F a; uint8 b; };",
    "flag array": "flag F : uint16 { X = 1 }; struct T { F a[1]; uint8 b; };",
    "zero is no member": "enum E : int16 { A = 1, B = 5 }; struct T { E a; uint8 c; E b[1]; };",
    "bits": "struct T { uint8 a : 3; uint8 b : 5; uint16 c : 9; uint16 d : 7; };",
    "enum bits": "enum E : uint8 { A, B = 5 }; struct T { E a : 3; uint8 b : 5; int16 c; };",
    "signed bits": "struct T { int8 a : 3; int8 b : 5; int16 c; };",
    "pointers": "struct N { uint8 x; }; struct T { N *a; uint8 *b[2]; void *c; };",
    "one char": "struct T { char a; };",
    "one string": "struct T { char a[3]; };",
    "one int": "struct T { uint16 a; };",
    "one wchar": "struct T { wchar a[2]; };",
    "one array": "struct T { uint8 a[3]; };",
    "one struct": "struct N { uint8 x; }; struct T { N a; };",
    "empty": "struct T { };",
    "dynamic": "struct T { uint8 a; uint8 b[a]; char c[a]; uint16 d; };",
    "terminated": "struct T { char a[]; uint8 b[]; wchar c[]; };",
    "leb": "struct T { uleb128 a; ileb128 b; };",
    "to the end": "struct T { uint8 a; uint16 b[EOF]; };",
    "underscores": "struct T { uint8 a; uint8 _1; uint8 __b; };",
    "union": "union T { uint8 a; uint16 b; uint8 c[3]; struct { uint8 x; uint8 y; } d; };",
    "union of arrays": "union T { uint16 a[2]; char b[3]; int24 c; };",
    "union of anonymous": "union T { struct { uint8 a; uint8 b; }; uint32 c; };",
}


def value_for(env, ft, name, lib, bits=None):
    """A value of a field's type with symbolic content."""
    if ft.__name__.startswith(("uleb", "ileb")):
        return env.int(name, 0 if ft.__name__[0] == "u" else -64, 63)
    if issubclass(ft, (lib.Enum, lib.Flag)) or issubclass(ft, lib.Pointer):
        if bits:
            return ft(env.int(name, 0, (1 << bits) - 1))
        return ft(env.stream(env.bytes(name, ft.size)))
    if bits:
        signed = getattr(ft, "signed", False)
        return env.int(name, -(1 << (bits - 1)) if signed else 0, (1 << (bits - (1 if signed else 0))) - 1)
    n = ft.size
    if n is None:
        return ft.__default__()
    if n == 0:
        return ft.__default__()
    r = env.call(ft, env.stream(env.bytes(name, n)))
    if not r.ok:
        env.skip("no value")
    v = r.value
    if isinstance(v, FLOAT):
        env.assume(v == v)
    return v


def dynamic_value(env, ft, name, lib):
    if ft.__name__.startswith("char"):
        s = env.bytes(name, 2)
        for e in env.els(s):
            env.assume(env.mkint_el(e) != 0)
        return s
    if ft.__name__.startswith("wchar"):
        return env.wtext(name, 1)
    return ft([env.int(f"{name}.{i}", 1, 255) for i in range(2)])


def field_value(env, f, name, lib):
    if f.type.size is None and not f.type.__name__.startswith(("uleb", "ileb")) and not issubclass(f.type, lib.Structure):
        return dynamic_value(env, f.type, name, lib)
    return value_for(env, f.type, name, lib, f.bits)


def init(env, name, endian, align, compiled):
    """Constructing is assigning on a default instance; everything else is zero."""
    lib = env.lib
    cs = env.load(BUILD[name], endian=endian, align=align, compiled=compiled)
    t = cs.T
    members = list(t.lookup)
    env.tag = name
    d = t()
    if t.size is not None:
        z = env.call(t, env.stream(bytes(t.size)))
        env.check(z.ok, "zeroes can't be parsed", lambda: f"{z!r}")
        env.check(ceq(env.canon(d), env.canon(z.value)), "the default is not zero", lambda: f"{d!r} {z!r}")
        env.check(d.dumps() == bytes(t.size), "the default is not zero", lambda: f"{d!r} {d.dumps()!r}")
        env.check(env.native_bool(d == z.value), "the default is not zero", lambda: f"{d!r} {z!r}")
    else:
        for k, f in t.fields.items():
            x = getattr(d, k)
            zero = ref_zero(env, x)
            env.check(zero, "the default is not zero", lambda: f"{k} {d!r}")
    env.reach("zero")
    union = issubclass(t, lib.Union)
    # the first p members are given by position
    p = env.choice("positional", range(len(members) + 1) if not union else range(min(1, len(members)) + 1))
    given = members[:p]
    kw = []
    for k in members[p:]:
        if not (union and (given or kw)) and env.choice(f"give {k}", [False, True]):
            kw.append(k)
    values = {k: field_value(env, t.lookup[k], f"v.{k}", lib) for k in given + kw}
    if p == 1 and not kw and env.canon(values[given[0]])[0] == "b" and not (len(members) == 1 and issubclass(t.lookup[given[0]].type, bytes)):
        env.skip("parses")
    if env.choice("reversed keywords", [False, True] if len(kw) > 1 else [False]):
        kw = kw[::-1]
    a = env.call(lambda: t(*[values[k] for k in given], **{k: values[k] for k in kw}))
    b = t()
    for k in given + kw:
        r = env.call(setattr, b, k, values[k])
        env.check(r.ok, "field can't be assigned", lambda: f"{k} {r!r}")
    if name in ("dynamic",) and not a.ok:
        env.skip("not constructed")
    env.check(a.ok, "can't be constructed from its fields", lambda: f"{name} {given} {kw} {a!r}")
    a = a.value
    env.check(type(a) is t, "construction gave another type", lambda: f"{a!r}")
    env.check(ceq(env.canon(a), env.canon(b)), "constructing differs from assigning on a default instance", lambda: f"{given} {kw}: {a!r} {b!r}")
    for k in members:
        x = getattr(a, k)
        if k in values:
            env.check(ceq(env.canon(x), env.canon(values[k])), "constructing does not give the fields their values", lambda: f"{k}: {x!r} {values[k]!r}")
        elif not union:
            env.check(ceq(env.canon(x), env.canon(getattr(d, k))), "unspecified field is not zero", lambda: f"{k}: {x!r}")
    env.check(env.native_bool(a == b), "constructing differs from assigning on a default instance", lambda: f"{given} {kw}: {a!r} {b!r}")
    x, y = env.call(a.dumps), env.call(b.dumps)
    env.check(x.kind == y.kind, "constructing differs from assigning on a default instance", lambda: f"{x!r} {y!r}")
    if x.ok:
        env.check(x.value == y.value, "constructing differs from assigning on a default instance", lambda: f"{x!r} {y!r}")
    compare(env, t, a, b, name)
    env.reach("constructed")
    # the default itself has not changed
    env.check(ceq(env.canon(t()), env.canon(d)), "constructing changed the default", lambda: f"{t()!r}")
    x = env.call(lambda: t(**{"no such field": 1}))
    env.check(not x.ok and x.kind == "TypeError", "an unknown field was accepted", lambda: f"{x!r}")


def ref_zero(env, x):
    x = plain(env, x)
    if isinstance(x, env.lib.Structure):
        return env.both(True, *[ref_zero(env, getattr(x, k)) for k in type(x).fields])
    if isinstance(x, list):
        return env.both(True, *[ref_zero(env, y) for y in x])
    c = env.canon(x)
    if c[0] in ("b", "s"):
        return all(type(e) is int and e == 0 for e in c[1])
    return x == 0


# -- assignment ------------------------------------------------------------------------------------------------

ASSIGN = {
    **{k: v for k, v in BUILD.items() if k not in ("dynamic", "terminated", "leb", "to the end", "empty")},
    "deep": "struct T { struct { struct { uint8 x[2]; uint16 w; } b; uint8 y; } a; uint8 z; };",
    "deep anonymous": "struct T { uint8 a; struct { uint8 b; struct { uint8 c; union { uint8 d; uint16 e; }; }; uint8 f; }; uint8 g; };",
    "struct arrays": "struct N { uint8 x; uint16 y; }; struct T { uint8 a; N b[2][2]; uint8 c; };",
    "union inside": "union N { uint32 a; uint8 b[4]; struct { uint8 x; uint16 y; } s; }; struct T { uint8 k; N n; N m[2]; };",
    "union of unions": "union N { uint16 a; uint8 b; }; union T { N n; struct { uint8 x; N m; } s; uint32 w; };",
    "padded": "struct T { uint8 a; uint32 b; uint8 c; uint64 d; uint16 e; };",
    "bits between": "struct T { uint8 a; uint16 b : 5; uint16 c : 7; uint8 d; uint32 e : 1; uint32 f : 31; uint8 g; };",
    "bits of types": "struct T { uint8 a : 4; uint16 b : 4; uint32 c : 12; uint32 d : 7; uint8 e; };",
    "wide bits": "struct T { uint64 a : 1; uint64 b : 62; uint64 c : 1; uint24 d : 11; uint24 e : 13; };",
    "bits in struct": "struct N { uint8 p : 3; uint8 q : 5; }; struct T { N a; uint8 b; N c[2]; };",
    "flags bits": "flag F : uint8 { X = 1 }; enum E : uint8 { A, B = 5 }; struct T { E e : 3; F f : 5; uint8 z; };",
    "mixed": "struct T { char a[2]; uint16 b; float16 c; wchar d; uint48 e; double f; };",
    "offsets": "struct N { uint8 x; uint8 y; }; struct T { uint8 a[3]; N n; uint16 b[2]; char c; };",
    "pointer union": "union T { uint8 *p; uint64 v; };",
}


def walk(env, v, lib):
    """[(path, getter, setter, field type, bits)] for everything assignable inside an instance.

    Elements of arrays in unions are no fields: the union does not know about their changes.
    """
    out = []

    def struct(get, path, t, depth, union=False):
        union = union or issubclass(t, lib.Union)
        for k, f in t.fields.items():
            out.append(((*path, k), lambda get=get, k=k: getattr(get(), k), lambda x, get=get, k=k: setattr(get(), k, x), f.type, f.bits))
            if depth < 3:
                value(lambda get=get, k=k: getattr(get(), k), (*path, k), f.type, depth + 1, union)

    def value(get, path, t, depth, union=False):
        if issubclass(t, lib.Structure):
            struct(get, path, t, depth, union)
        elif issubclass(t, list) and t.num_entries and not union:
            for i in sorted({0, t.num_entries - 1}):
                out.append(((*path, i), lambda get=get, i=i: get()[i], lambda x, get=get, i=i: get().__setitem__(i, x), t.type, None))
                value(lambda get=get, i=i: get()[i], (*path, i), t.type, depth + 1)

    struct(lambda: v, (), type(v), 0)
    return out


def assign(env, name, way, endian, align, compiled, times):
    """Assigning one member changes its bits in the dump and nothing else."""
    lib = env.lib
    cs = env.load(ASSIGN[name], endian=endian, align=align, compiled=compiled)
    t = cs.T
    n = t.size
    env.tag = f"{name} {way}"
    if way == "parsed":
        r = env.call(t, env.stream(env.bytes("data", n)))
        if not r.ok:
            env.skip("does not parse")
        v = r.value
    elif way == "default":
        v = t()
    else:
        first = next(iter(t.lookup))
        v = t(**{first: field_value(env, t.lookup[first], "first", lib)})
    if has_nan(env, v):
        env.skip("nan")
    for i in range(times):
        everything = walk(env, v, lib)
        at = env.choice(f"where{i}", range(len(everything)))
        path, get, set_, ft, bits = everything[at]
        env.note(str(path))
        before = v.dumps()
        whole = env.canon(v)
        new = value_for(env, ft, f"new{i}", lib, bits)
        r = env.call(set_, new)
        env.check(r.ok, "field can't be assigned", lambda: f"{path} {r!r}")
        env.check(ceq(env.canon(get()), env.canon(new)), "assigned field has another value", lambda: f"{path}: {get()!r} {new!r}")
        after = env.call(v.dumps)
        env.check(after.ok, "can't be dumped after assigning a field", lambda: f"{path} {after!r}")
        after = after.value
        env.check(len(after) == len(before) == n, "assigning a field changed the size", lambda: f"{before!r} {after!r}")
        lo, mask = region(env, cs, t, path, bits, endian)
        for j, (x, y) in enumerate(zip(env.els(before), env.els(after))):
            keep = 0xFF & ~mask.get(j, 0)
            if keep:
                env.check(env.mkint_el(x) & keep == env.mkint_el(y) & keep, "assigning a field changed bytes that are not its own", lambda: f"{path} byte {j}: {before!r} {after!r}")
        if bits is None and issubclass(ft, lib.BaseType) and lo is not None:
            own = env.call(lambda: ft.dumps(new))
            if own.ok:
                # what padding in a structure has is of no importance
                for j, m in data_bits(lib, ft, align, endian).items():
                    e = env.els(own.value)[j]
                    env.check(env.mkint_el(env.els(after)[lo + j]) & m == env.mkint_el(e) & m, "assigning a field did not change its bytes", lambda: f"{path}: {own!r} {after!r}")
        back = env.call(t, env.stream(after))
        env.check(back.ok and ceq(env.canon(back.value), env.canon(v)), "the dump after an assignment reads back as something else", lambda: f"{path}: {v!r} {back!r}")
        if all(not isinstance(k, int) for k in path[:1]) and not in_union(lib, t, path):
            for k in t.fields:
                if k != path[0]:
                    x = dict(whole[2])[k]
                    env.check(ceq(x, env.canon(getattr(v, k))), "assigning a field changed another", lambda: f"{path} {k}: {v!r}") if not shares(t, k, path[0]) else None
        env.reach("bits" if bits else "element" if isinstance(path[-1], int) else "assigned")


def has_nan(env, v):
    def walk(x):
        x = plain(env, x)
        if isinstance(x, env.lib.Structure):
            for k in type(x).fields:
                walk(getattr(x, k))
        elif isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, FLOAT):
            env.assume(x == x)

    walk(v)
    return False


def shares(t, a, b):
    """Are two members folded in from the same anonymous union?"""
    return any(f.name is None and a in f.type.fields and b in f.type.fields for f in t.__fields__)


def in_union(lib, t, path):
    return issubclass(t, lib.Union)


def region(env, cs, t, path, bits, endian):
    """(first byte, {byte: mask of the bits of the member}), found by an independent walk over the definition."""
    lib = env.lib
    at, mask = 0, None
    align = t.__align__
    for k in path:
        if isinstance(k, int):
            t = t.type
            at += k * t.size
            continue
        off, t, mask = member(lib, t, k, align, endian)
        at += off
    if mask is not None:
        return None, {at + j: m for j, m in mask.items()}
    # padding inside a nested structure is no part of the member's bytes, but always zero
    return at, {at + j: 0xFF for j in range(t.size)}


def size_of(lib, t, align):
    if issubclass(t, lib.Structure):
        return sum_layout(lib, t, align, None)[0]
    if issubclass(t, list):
        return t.num_entries * size_of(lib, t.type, align)
    return t.size


def align_of(lib, t, align):
    if issubclass(t, lib.Structure):
        return max([align_of(lib, f.type, align) for f in t.__fields__] or [1])
    if issubclass(t, list):
        return align_of(lib, t.type, align)
    return t.alignment


def sum_layout(lib, t, align, name):
    """(size, (offset, first bit, unit size) of a field), from the member types and their order alone."""
    union = issubclass(t, lib.Union)
    off = size = 0
    unit = left = None
    found = None
    for f in t.__fields__:
        ft = f.type
        a = align_of(lib, ft, align) if align else 1
        if union:
            off, unit = 0, None
        if f.bits:
            base = ft.type if issubclass(ft, (lib.Enum, lib.Flag)) else ft
            if unit is None or unit[0] is not base or left == 0:
                off += -off % a
                unit, left = (base, off), 8 * base.size
                off += base.size
            if f._name == name:
                found = (unit[1], 8 * base.size - left, base.size)
            left -= f.bits
        else:
            unit = None
            off += -off % a
            if f._name == name:
                found = (off, None, None)
            off += size_of(lib, ft, align)
        size = max(size, off)
    if align:
        size += -size % align_of(lib, t, align)
    return size, found


def data_bits(lib, t, align, endian):
    """{byte: mask} of everything in a type that is not padding."""
    out = {}
    if issubclass(t, list):
        n = size_of(lib, t.type, align)
        for i in range(t.num_entries):
            for j, m in data_bits(lib, t.type, align, endian).items():
                out[i * n + j] = m
        return out
    if not issubclass(t, lib.Structure):
        return dict.fromkeys(range(t.size), 0xFF)
    for f in t.__fields__:
        off, ft, mask = member(lib, t, f._name, align, endian)
        for j, m in (data_bits(lib, ft, align, endian) if mask is None else mask).items():
            out[off + j] = out.get(off + j, 0) | m
    return out


def member(lib, t, k, align, endian):
    """(offset, type, mask of a bit-field) of a member that may be folded in from an anonymous structure."""
    for f in t.__fields__:
        if f.name is None and k in f.type.fields:
            off, _, mask = member(lib, f.type, k, align, endian)
            return sum_layout(lib, t, align, f._name)[1][0] + off, t.fields[k].type, mask
        if f._name == k:
            off, first, unit = sum_layout(lib, t, align, k)[1]
            mask = None
            if f.bits:
                if endian == "<":
                    m = ((1 << f.bits) - 1) << first
                    raw = m.to_bytes(unit, "little")
                else:
                    m = ((1 << f.bits) - 1) << (8 * unit - first - f.bits)
                    raw = m.to_bytes(unit, "big")
                mask = dict(enumerate(raw))
            return off, f.type, mask
    raise KeyError(k)


# -- other types -----------------------------------------------------------------------------------------------


def others(env, union, compiled):
    """Instances of another type are never equal, whatever they contain."""
    kw = "union" if union else "struct"
    cs = env.load(f"{kw} A {{ uint8 x; uint16 y; }}; {kw} B {{ uint8 x; uint16 y; }}; {kw} C {{ uint8 x; }}; struct H {{ A a; }}; struct I {{ B a; }}; typedef A D;", compiled=compiled)
    other = env.load(f"{kw} A {{ uint8 x; uint16 y; }};", compiled=compiled)
    n = cs.A.size
    data, more = env.bytes("data", n), env.bytes("more", n)
    a = cs.A(data)
    env.check(env.native_bool(a == cs.D(data)) and cs.D is cs.A, "an alias is another type", lambda: f"{a!r}")
    subs = [cs.B(more), other.A(more), cs.C(more), 0, None, more, b"abc", "x", a.x, [1], (a.x, a.y), object(), cs.A, cs.H(more)]
    i = env.choice("other", range(len(subs)))
    b = subs[i]
    x, y, z, w = env.call(lambda: a == b), env.call(lambda: a != b), env.call(lambda: b == a), env.call(lambda: b != a)
    for r, want in ((x, False), (y, True), (z, False), (w, True)):
        env.check(r.ok and env.native_bool(r.value) is want, "instances of different types are equal", lambda: f"{a!r} {b!r} {r!r}")
    h, i = cs.H(data), cs.I(data)
    env.check(not env.native_bool(h == i), "instances of different types are equal", lambda: f"{h!r} {i!r}")
    env.check(not env.native_bool(h.a == i.a), "instances of different types are equal", lambda: f"{h!r} {i!r}")
    env.check(env.native_bool(h.a == a), "instances of the same type are not equal", lambda: f"{h!r} {a!r}")
    env.reach("another type")


def definitions(quick):
    cfgs = [("<", False, True), (">", True, False)] if quick else CONFIGS
    heavy = ["g8x2", "e8x2x2", "g8z", "eg", "g8", "g32", "gb4", "g8z", "e8x2", "es2"]
    singles = M.FIXED_ALL + M.BITS_ALL + M.SBITS + M.DYN_ALL
    light = "u8 u16 f32 ch wc e8 p u8x3 chx3 n1 un u8x2x2 as b3 h4 b35 ul u8z chz dn".split()
    for i, (e, al, c) in enumerate(cfgs):
        p = {"endian": e, "align": al, "compiled": c, "extra": 1 if quick else 3}
        some = singles
        if quick:
            some = [k for k in singles if k not in (heavy if i else heavy[:3])]
        for fn, step in ((equality, 4), (truths, 8)):
            for j in range(0, len(some), step):
                yield Job(fn, {"prefix": "", "options": some[j : j + step], **p}, cost=10)
            for j, f in enumerate(light):
                if not quick or f not in ("u8z", "chz") and (j + i) % (3 if fn is equality else 6) == 0:
                    yield Job(fn, {"prefix": f, "options": light, **p}, cost=20)


def jobs(tier, lib):
    quick = tier == "quick"
    yield from definitions(quick)
    ns = [0, 1, 2, 3, 4, 5, 8, 13, 24] if quick else [*range(0, 40), 64, 130, 255, 256, 257, 300]
    orders = [["plain", "reversed"], ["reversed", "plain", "rotated"], ["odd", "plain"], ["plain", "odd", "template"], ["template", "rotated", "x", "y", "plain", "reversed"]]
    for i, n in enumerate(ns):
        for j, kinds in enumerate(orders):
            for s in range(len(kinds)):
                if quick and (i + j + s) % 3 and n not in (2, 3):
                    continue
                yield Job(counts, {"n": n, "kinds": kinds, "union": False, "subject": s, "compiled": bool((i + j) % 2), "member": ["uint8", "array", "struct"][(i + s) % 3] if n < 6 else "uint8"}, cost=4)
                if n < 9 and (not quick or (i + j + s) % 2):
                    yield Job(counts, {"n": n, "kinds": kinds, "union": True, "subject": s, "compiled": bool((i + j) % 2), "member": "uint8"}, cost=4)
    if quick:
        for n, kinds in ((41, ["odd", "plain"]), (65, ["plain", "reversed"]), (130, ["reversed", "template"]), (260, ["plain", "rotated"])):
            for s in (0, 1):
                yield Job(counts, {"n": n, "kinds": kinds, "union": False, "subject": s, "compiled": bool(s), "member": "uint8", "fill": bool((n + s) % 2)}, cost=6)
    for i, name in enumerate(BUILD):
        for c in (False, True):
            for e, al in ((("<>"[(i + c) % 2], bool((i // 2 + c) % 2)),) if quick else (("<", False), (">", False), ("<", True), (">", True))):
                yield Job(init, {"name": name, "endian": e, "align": al, "compiled": c}, cost=6)
    for i, name in enumerate(ASSIGN):
        for j, way in enumerate(("parsed", "default", "partly")):
            for e in "<>":
                for al in (False, True):
                    for c in (False, True):
                        if quick and (c != bool((i + j + al) % 2) or (way != "parsed" and al != bool((i + j) % 2))):
                            continue
                        yield Job(assign, {"name": name, "way": way, "endian": e, "align": al, "compiled": c, "times": 1}, cost=4)
                        if not quick and c:
                            yield Job(assign, {"name": name, "way": way, "endian": e, "align": al, "compiled": c, "times": 2}, cost=20)
    for u in (False, True):
        for c in (False, True):
            yield Job(others, {"union": u, "compiled": c}, cost=2)
