"""C13: definitions mean the same whatever the comments, spacing and order; aliases resolve to the very same type."""

from __future__ import annotations

import itertools
import re

from spec.types import ALIASES, SCALARS
from vse.canon import ceq
from vse.core import b_and, b_eq, b_le, b_not
from vse.run import Job
from vse.values import raw

WITNESSES = ["space", "comment", "line", "everywhere", "order", "alias", "redeclared", "unknown", "cycle", "names", "bound"]
BOUNDS = (
    "27 definition texts over every construct of the parser; one gap between two tokens (every gap, tight and spaced) filled with 1 or 2 symbolic whitespace characters, a block comment of 0 to 2 (thorough 4) symbolic characters "
    "or a line comment of 0 to 2 (thorough 4), ended by LF or CRLF; every gap filled at once with each of 14 fillers; all orders of 4 independent definitions out of 9; up to 3 alias declarations over 3 names and 5 targets; "
    "every built-in synonym; the types are compared by name, layout and members, and by what they read (from symbolic bytes where a single gap is not symbolic already)"
)
ASSUMPTIONS = [
    "array type names that spell out an expression are not compared",
    "a #define ends with its line, so only spaces, tabs and comments without line ends are inserted in it",
    "the legacy parser (DEF_LEGACY) is not covered",
]

DEFS = {
    "bits": "struct T { uint8 a; uint16 b : 3; uint16 c : 5; char s[2]; };",
    "arrays": "struct T { unsigned int a; uint8 n; uint8 x[n + 1]; uint8 m[2][3]; };",
    "pointers": "struct T { uint8 *p; uint8 **q; uint8 *r[2]; char t[]; };",
    "nested": "struct T { struct { uint8 a; } x; union { uint8 b; uint16 c; }; struct { uint8 d; } y[2]; };",
    "named inside": "struct T { struct N { uint8 a; } x; uint8 z; };",
    "typedefs": "typedef struct _T { uint8 a; } T, U;",
    "three names": "typedef union { uint8 a; } T, U, V;",
    "anonymous typedef": "typedef struct { uint8 a; } T;",
    "alias": "typedef unsigned int A; struct T { A x; };",
    "array alias": "typedef uint8 A[2]; struct T { A x[3]; };",
    "pointer alias": "typedef uint16 *A; struct T { A x; A y[1]; };",
    "enum": "enum E : uint8 { A, B = 2, C = B + 1 }; struct T { E e; };",
    "typed enum": "enum E : unsigned short { A, B = 2, }; struct T { E e : 3; };",
    "constants": "enum { A, B }; struct T { uint8 x[B]; };",
    "enum values": "enum E { A = (1 << 2) | 1, B, C = sizeof(uint16) }; struct T { E e; };",
    "flag": "flag F : uint16 { A, B = 4, C }; struct T { F e[2]; };",
    "reference": "struct N { uint8 a; }; struct T { struct N x; N y; struct N *z; };",
    "self": "struct T { uint8 a; struct T *next; };",
    "flagged": "#[nocompile] struct T { uint8 a; }; struct U { T a; };",
    "union": "union T { uint8 a; uint16 b; };",
    "trailing name": "struct { uint8 a; } T;",
    "keyword": "struct T { uint8 flag : 3; uint8 enum : 5; }; enum E { A };",
    "to the end": "struct T { uint8 n; uint8 x[EOF]; };",
    "sizeof": "struct T { uint8 x[sizeof(uint16) * 2]; uint8 y[(1 + 1) << 1]; };",
    "define": "#define N 2\n#define M (N + 1)\nstruct T { uint8 x[N]; uint8 y[M - N]; };",
    "strings": "#define N 'a//b'\n#define M \"/* c */\"\n#define K 0x1\nstruct T { uint8 x[K]; };",
    "lookup": "#define N 1\n#define M 2\n$names = {'N': 'one', 'M': 'two'}\nstruct T { uint8 x; };",
}
TOKEN = re.compile(r"#\[\w+\]|#define|\$\w+|'[^']*'|\"[^\"]*\"|[A-Za-z_]\w*|\d\w*|<<|>>|\n|[^\s]")
WS = " \t\n\r\x0b\x0c"
FLAT = " \t"
TEXT = "*/ \n\r\"';{}#a0,=[$"
FILLERS = [" ", "\t", "\n", "\r\n", "  ", "\n\n", "/**/", "/* a */", " /*\n*/ ", "//\n", "// x\n", " // it's\r\n", "/* ; { */", "/*\r\n \"\r\n*/"]


def pieces(text):
    """Tokens and, for each gap (before each token and at the end), whether it is inside a #define line."""
    toks, flat, line, out = [], [], False, []
    for t in TOKEN.findall(text):
        if t == "#define":
            line = True
            flat.append(False)
        else:
            flat.append(line)
        toks.append(t)
        if t == "\n":
            line = False
    flat.append(line)
    _ = out
    return toks, flat


def word(c):
    return c.isalnum() or c in "_$#"


def needs(a, b):
    """A separator is needed between two tokens."""
    return word(a[-1]) and (word(b[0]) or b[0] in "('\"") and not (a == "sizeof" and b == "(") and (word(b[0]) or a in ("M", "N", "K"))


def assemble(toks, i, filler, style, line_of):
    """The text with ``filler`` in gap ``i``."""
    parts = []
    for k, t in enumerate([*toks, None]):
        a = toks[k - 1] if k else None
        sep = ""
        if a is not None and t is not None and a != "\n" and t != "\n":
            need = needs(a, t) or (line_of[k] and k >= 2 and toks[k - 2] == "#define")
            sep = " " if need or style == "spaced" and not (line_of[k] and not need) else ""
        if k == i:
            parts.append(sep if style == "spaced" else "")
            parts.append(filler)
        else:
            parts.append(sep)
        if t is not None:
            parts.append(t)
    s = ""
    for p in parts:
        s = s + p
    return s


ANON = re.compile(r"__anonymous_\d+__")


def nm(s):
    return None if s is None else ANON.sub("?", s)


def describe(lib, t, depth=0):
    """Everything that can be told about a type, without identities."""
    n = nm(t.__name__)
    if depth > 5:
        return n
    if issubclass(t, lib.Structure):
        fs = [(nm(f.name), f.offset, f.bits, f.alignment, describe(lib, f.type, depth + 1)) for f in t.__fields__]
        return ("struct", n, issubclass(t, lib.Union), t.size, t.alignment, t.dynamic, t.__compiled__, fs, [nm(k) for k in t.fields])
    if issubclass(t, (lib.Enum, lib.Flag)):
        return ("enum", issubclass(t, lib.Flag), n, describe(lib, t.type), [(k, int(v.value)) for k, v in t.__members__.items()])
    if issubclass(t, lib.Pointer):
        return ("pointer", t.size, describe(lib, t.type, depth + 1))
    if hasattr(t, "num_entries"):
        c = t.num_entries
        return ("array", c if c is None or type(c) is int else "expression", t.null_terminated, t.dynamic, t.size, t.alignment, describe(lib, t.type, depth + 1))
    return (n, t.size, t.alignment, t.dynamic)


def everything(env, cs):
    lib = env.lib
    base = lib.cstruct()
    types = {k: describe(lib, cs.resolve(k)) for k in cs.typedefs if k not in base.typedefs}
    same = [(a, b) for a, b in itertools.combinations(sorted(types), 2) if cs.resolve(a) is cs.resolve(b)]
    consts = {k: int(v.value) if isinstance(v, (lib.Enum, lib.Flag)) else env.canon(v) for k, v in cs.consts.items()}
    return types, same, consts, {k: dict(v) for k, v in cs.lookups.items()}


def alike(env, ref, cs, names=("T",), n=12, what=None, sample=False):
    """Two sets of loaded definitions are the same, and read the same values."""
    a, b = everything(env, ref), everything(env, cs)
    same = a[0] == b[0] and a[1] == b[1] and a[2].keys() == b[2].keys() and a[3] == b[3]
    if same:
        same = b_and(*[ceq(v, b[2][k]) if type(v) is tuple and type(b[2][k]) is tuple else v == b[2][k] for k, v in a[2].items()])
    env.check(same, "the definitions differ", lambda: f"{what!r}: {diff(a, b)}")
    data = bytes([1, 2, 3, 0, 5, 2, 0, 8, 1, 1, 0, 4])[:n] if sample else env.bytes("data", n)
    for name in names:
        out = []
        for c in (ref, cs):
            stream = env.stream(data)
            r = env.call(c.resolve(name), stream)
            out.append((r, stream.tell()))
        (ra, na), (rb, nb) = out
        env.check(ra.ok == rb.ok, "only one accepts the input", lambda: f"{what!r}: {ra!r} {rb!r}")
        if ra.ok:
            env.check(ceq(anon(env.canon(ra.value)), anon(env.canon(rb.value))), "parsed values differ", lambda: f"{what!r}: {ra!r} {rb!r}")
            env.check(na == nb, "bytes consumed differ", lambda: f"{what!r}: {na} {nb}")


def anon(c):
    if c[0] == "st":
        return ("st", nm(c[1]), tuple((nm(k), anon(v)) for k, v in c[2]))
    if c[0] == "l":
        return ("l", tuple(anon(v) for v in c[1]))
    return c


def diff(a, b):
    for what, x, y in zip(("types", "aliases", "constants", "lookups"), a, b):
        if x != y:
            if isinstance(x, dict):
                return what, [(k, x.get(k), y.get(k)) for k in {**x, **y} if x.get(k) != y.get(k)][:2]
            return what, x, y
    return None


def gap(env, name, kind, style, first, last, compiled, longest):
    text = DEFS[name]
    toks, flat = pieces(text)
    i = env.choice("gap", range(first, min(last, len(toks) + 1)))
    env.tag = f"{kind} {toks[i - 1] if i else ''} ^ {toks[i] if i < len(toks) else ''}"
    inside = flat[i]
    if kind == "space":
        n = env.choice("length", [1, 2])
        # the value of a lookup is a Python literal, which knows no vertical tab
        literal = any(t[0] == "$" for t in toks[:i]) and "}" not in toks[:i]
        filler = env.text("filler", n, FLAT if inside else WS.replace("\v", "") if literal else WS)
    elif kind == "comment":
        n = env.choice("length", range(longest + 1))
        body = env.text("filler", n, TEXT.replace("\n", "").replace("\r", "") if inside else TEXT)
        codes = [raw(c) for c in map(env.mkint_code, env.codes(body))]
        for a, b in zip(codes, codes[1:]):
            env.assume(b_not(b_and(b_eq(a, 42), b_eq(b, 47))))
        filler = "/*" + body + "*/"
    else:
        # a line comment ends the line: only where a line end can be
        if inside and not (i < len(toks) and toks[i] == "\n"):
            env.skip("inside a #define")
        n = env.choice("length", range(longest + 1))
        body = env.text("filler", n, TEXT.replace("\n", "").replace("\r", ""))
        filler = "//" + body + ("" if inside else env.choice("end", ["\n", "\r\n"]))
    ref = env.load(text, compiled=compiled)
    changed = assemble(toks, i, filler, style, flat)
    env.note(changed)
    cs = env.lib.cstruct()
    r = env.call(cs.load, changed, compiled=compiled)
    env.check(r.ok, "the changed text does not load", lambda: f"{changed!r}: {r!r}")
    alike(env, ref, cs, what=changed, sample=True)
    env.reach(kind)


def everywhere(env, name, compiled, align):
    """The same filler in every gap."""
    text = DEFS[name]
    toks, flat = pieces(text)
    f = env.choice("filler", FILLERS)
    style = env.choice("style", ["tight", "spaced"])
    env.tag = repr(f)
    s = ""
    for k, t in enumerate([*toks, None]):
        a = toks[k - 1] if k else ""
        inside = flat[k]
        if inside and ("\n" in f):
            s += f.replace("\r\n", " ").replace("\n", " ") if f.strip() == "" else " "
        else:
            s += f
        if style == "spaced" and a != "\n" and not inside:
            s += " "
        s += t or ""
    ref = env.load(text, compiled=compiled, align=align)
    cs = env.lib.cstruct()
    r = env.call(cs.load, s, compiled=compiled, align=align)
    env.check(r.ok, "the changed text does not load", lambda: f"{s!r}: {r!r}")
    alike(env, ref, cs, what=s, sample=name == "flag")
    env.reach("everywhere")


INDEPENDENT = {
    "s": ("struct S1 { uint8 a; struct { uint16 b; } c; };", ["S1"]),
    "t": ("typedef struct { uint16 x; union { uint8 y; uint16 z; }; } T1, *_;".replace(", *_", ""), ["T1"]),
    "e": ("enum E1 : uint16 { EA, EB = 4, EC };", ["E1"]),
    "f": ("flag F1 : uint8 { FA, FB, FC = 16, FD };", ["F1"]),
    "a": ("typedef unsigned long long A1; typedef uint8 A2[3];", ["A1", "A2"]),
    "d": ("#define D1 3\n#define D2 (D1 * 2)\nstruct D { uint8 x[D1]; uint8 y[D2 - D1]; };", ["D"]),
    "c": ("enum { C1 = 2, C2 }; struct C { char s[C2]; };", ["C"]),
    "n": ("#[nocompile]\nstruct N1 { uint8 q; };", ["N1"]),
    "l": ("#define L1 9\n$look = {'L1': 'nine'}\nstruct L { uint8 n; char s[n]; };", ["L"]),
}


def order(env, keys, compiled, align, split):
    """Definitions that do not refer to each other, in any order, in one text or one after the other."""
    perms = list(itertools.permutations(keys))
    p = env.choice("order", perms)
    env.tag = " ".join(p)
    names = sorted(n for k in keys for n in INDEPENDENT[k][1])
    ref = env.load("\n".join(INDEPENDENT[k][0] for k in keys), compiled=compiled, align=align)
    cs = env.lib.cstruct()
    if split:
        for k in p:
            cs.load(INDEPENDENT[k][0], compiled=compiled, align=align)
    else:
        cs.load("\n".join(INDEPENDENT[k][0] for k in p), compiled=compiled, align=align)
    alike(env, ref, cs, names, what=p, sample=True)
    env.reach("order")


NAMES = ("a", "b", "c")
TO = ("a", "b", "c", "uint8", "uint16", "nope")


def follow(m, n):
    seen = set()
    while n not in ("uint8", "uint16"):
        if n in seen or n not in m:
            return None
        seen.add(n)
        n = m[n]
    return n


def aliases(env, first, steps):
    """Alias declarations, including unknown and cyclic ones."""
    cs = env.lib.cstruct()
    m = {}
    for i in range(steps):
        n, t = first if i == 0 else (env.choice(f"name{i}", NAMES), env.choice(f"to{i}", TO))
        how = env.choice(f"how{i}", ["typedef", "add_type"])
        env.note(f"{how} {t} {n}")
        was, new = follow(m, n), follow(m, t)
        r = env.call(cs.load, f"typedef {t} {n};") if how == "typedef" else env.call(cs.add_type, n, t)
        if how == "typedef" and new is None:
            env.check(r.kind == "ResolveError", "a typedef of an unknown or cyclic alias is not a resolve error", lambda: repr(r))
        elif n in m and was is not None:
            env.check(r.ok == (was == new), "an alias can be declared again for the same type only", lambda: f"{n} is {was}, again for {t}: {r!r}")
            env.reach("redeclared")
        elif n not in m:
            env.check(r.ok, "an alias was refused", lambda: f"{n} for {t}: {r!r}")
        if r.ok:
            # a typedef in a text names the type itself
            m[n] = new if how == "typedef" else t
        for x in NAMES:
            want = follow(m, x)
            got = env.call(cs.resolve, x)
            if want is None:
                env.check(got.kind == "ResolveError", "an unknown or cyclic alias resolves", lambda: f"{m}: {x} -> {got!r}")
                g = env.call(cs.load, f"struct T{i}{x} {{ {x} f; }};")
                env.check(g.kind == "ResolveError", "a field of an unknown or cyclic alias is not a resolve error", lambda: f"{m}: {x} -> {g!r}")
                env.reach("cycle" if x in m else "unknown")
            else:
                env.check(got.ok and got.value is getattr(cs, want), "an alias is not the very same type", lambda: f"{m}: {x} -> {got!r}")
                env.check(getattr(cs, x) is getattr(cs, want), "an alias as attribute is not the very same type")
                cs.load(f"struct T{i}{x} {{ {x} f; {x} *p; {x} g[2]; }};", compiled=False)
                fs = getattr(cs, f"T{i}{x}").fields
                env.check(all(ft is getattr(cs, want) for ft in (fs["f"].type, fs["p"].type.type, fs["g"].type.type)), "a field of an alias has another type")
    env.reach("alias")


def synonyms(env, part, parts):
    """Every built-in name."""
    cs = env.lib.cstruct()
    for name, base in list(ALIASES.items())[part::parts]:
        t = cs.resolve(name)
        env.check(t is cs.resolve(base), "a synonym is another type", lambda: f"{name}: {t} is not {base}")
        if " " not in name:
            env.check(getattr(cs, name) is t, "a synonym as attribute is another type", lambda: name)
        x = cs.load(f"struct S_{name.replace(' ', '_')} {{ {name} a; {name} *b; }}; typedef {name} A_{name.replace(' ', '_')};", compiled=False)
        s = getattr(x, f"S_{name.replace(' ', '_')}")
        env.check(s.fields["a"].type is t and s.fields["b"].type.type is t, "a field of a synonym has another type", lambda: name)
        env.check(getattr(x, f"A_{name.replace(' ', '_')}") is t, "a typedef of a synonym is another type", lambda: name)
        for other in SCALARS:
            r = env.call(cs.add_type, name, other)
            env.check(r.ok == (other == base), "a synonym was declared again for another type", lambda: f"{name} as {other}: {r!r}")
        env.check(cs.resolve(name) is t, "a refused declaration changed a synonym", lambda: name)
    env.reach("names")


MULTI = [
    ("typedef struct _X { uint8 a; } X, Y, Z;", ["_X", "X", "Y", "Z"]),
    ("typedef struct { uint8 a; } X, Y;", ["X", "Y"]),
    ("typedef union _X { uint8 a; } X;", ["_X", "X"]),
    ("struct _X { uint8 a; } X, Y;", ["_X", "X", "Y"]),
    ("struct _X { uint8 a; }; typedef struct _X X; typedef X Y;", ["_X", "X", "Y"]),
    ("enum _X : uint8 { A }; typedef _X X;", ["_X", "X"]),
    ("typedef uint8 _X[2]; typedef _X X; typedef X Y;", ["_X", "X", "Y"]),
    ("typedef uint8 *_X; typedef _X X;", ["_X", "X"]),
    ("typedef unsigned long long X; typedef X Y; typedef Y Z; typedef Z X;", ["X", "Y", "Z", "uint64"]),
    ("typedef struct _X { uint8 a; struct _X *n; } X;", ["_X", "X"]) if False else ("struct X { uint8 a; struct X *n; }; typedef X Y;", ["X", "Y"]),
]


def names(env, i, compiled):
    text, ns = MULTI[i]
    cs = env.load(text, compiled=compiled)
    ts = [cs.resolve(n) for n in ns]
    env.check(all(t is ts[0] for t in ts), "names of one type are different types", lambda: f"{text}: {ts}")
    env.check(all(getattr(cs, n) is ts[0] for n in ns), "names of one type are different types", lambda: f"{text}: {ts}")
    cs.load("struct H { " + " ".join(f"{n} f{k};" for k, n in enumerate(ns)) + " };", compiled=compiled)
    env.check(all(f.type is ts[0] for f in cs.H.__fields__), "fields of one type have different types", lambda: text)
    for n in ns[1:]:
        r = env.call(cs.load, f"typedef uint16 {n};")
        env.check(not r.ok, "an alias was declared again for another type", lambda: f"{text} {n}: {r!r}")
        env.check(env.call(cs.load, f"typedef {ns[0]} {n};").ok, "an alias can not be declared again for the same type", lambda: f"{text} {n}")
        env.check(cs.resolve(n) is ts[0], "a declaration changed an alias")
    env.reach("names")


# Pairwise different types, most of them alike in name, size or fields
KINDS = {
    "struct": "struct A { uint8 x; uint8 y; };",
    "fields": "struct A { uint16 z; };",
    "names": "struct A { uint8 x; uint8 z; };",
    "same": "struct A { uint8 x; uint8 y; };",
    "union": "union A { uint8 x[2]; uint16 y; };",
    "enum": "enum A : uint16 { P, Q };",
    "other enum": "enum A : uint16 { P, Q, R };",
    "flag": "flag A : uint16 { P, Q };",
    "integer": "typedef uint16 A;",
    "signed": "typedef int16 A;",
    "array": "typedef uint8 A[2];",
    "longer": "typedef uint8 A[3];",
    "signed array": "typedef int8 A[2];",
    "dynamic": "typedef uint8 A[];",
    "matrix": "typedef uint8 A[2][1];",
    "pointer": "typedef uint8 *A;",
    "signed pointer": "typedef int8 *A;",
    "struct pointer": "struct B { uint8 x; }; typedef B *A;",
    "trailing": "struct { uint8 x; uint8 y; } A;",
    "typedef struct": "typedef struct _A { uint8 x; uint8 y; } A;",
    "character": "typedef char A[2];",
}


def redeclare(env, first, compiled):
    """A name that stands for one type is refused for any other, however it is declared, and keeps its type."""
    second = env.choice("second", [k for k in KINDS if k != first])
    how = env.choice("how", ["text", "object", "typedef", "name", "custom"])
    env.tag = f"{first}, {second}, {how}"
    cs = env.load(KINDS[first], compiled=compiled)
    old = cs.A
    src = KINDS[second]
    if how == "text":
        r = env.call(cs.load, src, compiled=compiled)
    elif how == "object":
        r = env.call(cs.add_type, "A", env.load(src, compiled=compiled).A)
    elif how == "custom":
        if not isinstance(old, type) or second not in ("integer", "signed"):
            env.skip("no base type")
        r = env.call(cs.add_custom_type, "A", env.lib.types.Int, 2)
    else:
        cs.add_type("Z", env.load(src, compiled=compiled).A)
        r = env.call(cs.load, "typedef Z A;") if how == "typedef" else env.call(cs.add_type, "A", "Z")
    env.check(not r.ok, "an alias was declared again for another type", lambda: f"{KINDS[first]} then {src} by {how}: {cs.A!r}")
    env.check(cs.A is old and cs.resolve("A") is old, "a refused declaration changed an alias", lambda: f"{KINDS[first]} then {src} by {how}: {cs.A!r}")
    env.check(env.call(cs.add_type, "A", old).ok and cs.A is old, "an alias can not be declared again for the same type", lambda: KINDS[first])
    cs.add_type("Y", "A")
    env.check(env.call(cs.add_type, "A", cs.Y).ok and env.call(cs.load, "typedef Y A;").ok and cs.A is old, "an alias can not be declared again for the same type", lambda: KINDS[first])
    env.check(env.call(cs.add_type, "A", cs.uint64, replace=True).ok and cs.A is cs.uint64 and cs.Y is cs.uint64, "a replaced alias", lambda: KINDS[first])
    env.reach("redeclared")


DEFINED = {"ab": "uint8", "aB": "uint16", "a": "uint32", "b1": "int8", "_b": "int16"}


def reference(env, shape, length):
    """A reference names one of the known types, or it is a resolve error: it never binds to anything else."""
    cs = env.load("".join(f"typedef {t} {n}; " for n, t in DEFINED.items()) + "struct S { uint8 x; }; typedef S ba;")
    known = {**{n: t for n, t in ALIASES.items()}, **{n: n for n in SCALARS}, **DEFINED, "S": "S", "ba": "S"}
    if shape == "sizeof":
        # the expression becomes part of a type's name, which is an ordinary string
        return bound(env, cs, known, shape, "".join(env.choice(f"c{i}", "abB_1S" if i else "abS") for i in range(length)))
    head = env.text("head", 1, "abB_1S" if length > 1 else "abS")
    name = head + env.text("rest", length - 1, "abB_1S") if length > 1 else head
    env.assume(b_not(b_and(b_le(48, raw(env.mkint_code(env.codes(name)[0]))), b_le(raw(env.mkint_code(env.codes(name)[0])), 57))))
    bound(env, cs, known, shape, name)


def bound(env, cs, known, shape, name):
    text = {
        "field": "struct T { %s f; };",
        "pointer": "struct T { %s *f; };",
        "array": "struct T { %s f[2]; };",
        "typedef": "typedef %s T;",
        "struct": "struct T { struct %s f; };",
        "enum": "enum T : %s { P, Q };",
        "sizeof": "struct T { uint8 f[sizeof(%s)]; };",
    }[shape].split("%s")
    text = text[0] + name + text[1]
    env.note(text)
    hit = [n for n in known if len(n) == len(name) and env.native_bool(name == n)]
    r = env.call(cs.load, text)
    want = cs.resolve(known[hit[0]]) if hit else None
    if shape == "enum" and hit and known[hit[0]] == "S":
        env.skip("not an integer")
    if shape == "sizeof" and r.ok and not hit:
        # an expression over an unknown name is evaluated, and refused, when the structure is read
        r = env.call(cs.T, bytes(8))
    env.check(r.ok == bool(hit), "a known name is refused or an unknown one is accepted", lambda: f"{text}: {r!r}")
    if not hit:
        env.check(r.kind == "ResolveError", "an unknown name is not a resolve error", lambda: f"{text}: {r!r}")
        env.reach("unknown")
        return
    t = cs.T
    got = {
        "field": lambda: t.fields["f"].type,
        "struct": lambda: t.fields["f"].type,
        "pointer": lambda: t.fields["f"].type.type,
        "array": lambda: t.fields["f"].type.type,
        "typedef": lambda: t,
        "enum": lambda: t.type,
        "sizeof": lambda: want if t.size == want.size else None,
    }[shape]()
    env.check(got is want, "a reference binds to another type", lambda: f"{text}: {got!r}")
    env.reach("bound")


def jobs(tier, lib):
    quick = tier == "quick"
    longest = 2 if quick else 4
    for k, name in enumerate(DEFS):
        n = len(pieces(DEFS[name])[0]) + 1
        for s, style in enumerate(("tight", "spaced")):
            for j, kind in enumerate(("space", "comment", "line")):
                if quick and style == "spaced" and kind != "space":
                    continue
                for i in range(0, n, 8):
                    yield Job(gap, {"name": name, "kind": kind, "style": style, "first": i, "last": i + 8, "compiled": bool((k + s + j) % 2), "longest": longest}, cost=10)
        for c in (False, True):
            yield Job(everywhere, {"name": name, "compiled": c, "align": c}, cost=10)
    ks = list(INDEPENDENT)
    combos = list(itertools.combinations(ks, 4))
    for j, keys in enumerate(combos if not quick else combos[::6]):
        yield Job(order, {"keys": list(keys), "compiled": j % 2 == 0, "align": j % 3 == 0, "split": j % 2 == 1}, cost=10)
    for n in NAMES[:1] if quick else NAMES:
        for t in TO:
            yield Job(aliases, {"first": [n, t], "steps": 2 if quick else 3}, cost=10)
    for p in range(4):
        yield Job(synonyms, {"part": p, "parts": 4}, cost=10)
    for i in range(len(MULTI)):
        for c in (False, True):
            yield Job(names, {"i": i, "compiled": c}, cost=5)
    for k in KINDS:
        for c in (False, True) if not quick else (True,):
            yield Job(redeclare, {"first": k, "compiled": c}, cost=10)
    for shape in ("field", "pointer", "array", "typedef", "struct", "enum", "sizeof"):
        for n in (1, 2) if quick else (1, 2, 3):
            yield Job(reference, {"shape": shape, "length": n}, cost=10)
