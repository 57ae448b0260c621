"""C20: generated type stubs are valid Python naming exactly the loaded definitions."""

from __future__ import annotations

import ast
import keyword
import types as pytypes
from pathlib import Path

from spec import menu as M
from vse.core import ext
from vse.run import Job

WITNESSES = [
    "constant", "integer constant", "text constant", "bytes constant", "enum constant", "other constant", "alias", "alias of an array", "alias of a pointer", "structure", "union", "enum", "flag", "custom type",
    "field", "array field", "pointer field", "inline structure", "nested inline structures", "unnamed type", "undeclarable name", "nothing", "file", "two in a file", "loaded twice", "bit-field",
]  # fmt: skip
BOUNDS = (
    "definition sets: each of the snippets of checks/c20.py (unnamed, empty, inline, recursive and same-named structures, unions, enums and flags with and without names and members, chains of typedefs, typedefs of arrays, "
    "pointers and names, several declarators, keywords and other special names, constants of every kind) alone, in pairs (quick: half of them) and, in the thorough tier, in triples of core snippets; structures and unions of every "
    "fragment of spec/menu.py alone and in pairs; each together with constants whose values are symbolic (any integer within 160 bits, any text of 0 to 3 characters, any 0 to 3 bytes, any value of an enum and a flag) and "
    "aliases of arrays of symbolic length (0 to 2**40); 3 class names, with and without module prefix; file stubs of 0 to 3 cstruct objects"
)
ASSUMPTIONS = [
    "Python's repr of an integer, text or bytes object is a literal of that object",
    "names that are not Python names (keywords, or names of unnamed types) cannot be declared; types with such names may be hinted by any of their base classes, fields with such names are left out",
    "the built-in type names of cstruct are not redefined, names do not coincide with those the stub imports or inherits from, no two enums share a name, and no two inline structures of one structure (C forbids both)",
    "constants that Python cannot write as a literal (infinite floats) only need to be declared",
]

OPEN, CLOSE = "QZ_", "_ZQ"


def is_name(s):
    return s.isidentifier() and not keyword.iskeyword(s)


def source(env, text):
    """The text as Python source, with names in place of the renderings of symbolic values."""
    out, values = [], {}
    for t in env.tokens(text):
        if type(t) is tuple:
            name = f"{OPEN}{len(values)}{CLOSE}"
            values[name] = t
            out.append(name)
        elif type(t) is int:
            out.append(chr(t))
        else:
            # characters of a text that are not written as a literal
            env.check(env.no(env.ceq(env.mkint_code(t), 39)), "not Python", lambda: f"{text!r}")
            env.skip("raw text")
    return "".join(out), values


class Stub:
    """What is known of a stub: a class with its declarations."""

    def __init__(self, env, node, cs, empty, prefix, values, detail):
        self.env, self.node, self.cs, self.empty, self.prefix, self.values, self.detail = env, node, cs, empty, prefix, values, detail
        self.cls = node.name
        self.decl = {}
        for x in node.body:
            if isinstance(x, ast.ClassDef):
                self.put(self.decl, x.name, x)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                self.put(self.decl, x.target.id, x)
            elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            else:
                self.bad("unexpected declaration", ast.unparse(x))

    def bad(self, label, what=""):
        self.env.fail(label, lambda: f"{what} in {self.detail}")

    def ok(self, c, label, what=""):
        self.env.check(c, label, lambda: f"{what} in {self.detail}")
        return c

    def put(self, decl, name, x):
        if name in decl:
            self.bad("declared twice", name)
        decl[name] = x

    # -- expressions

    def lib(self, e):
        """Name of a library class that an expression refers to."""
        if self.prefix:
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f"{e.value.id}." == self.prefix:
                return e.attr
        elif isinstance(e, ast.Name):
            return e.id
        return None

    def lib_class(self, e):
        n = self.lib(e)
        return None if n is None else getattr(self.env.lib.types, n, getattr(self.env.lib, n, None))

    def name(self, e, scope):
        """(found, type or class definition) that a plain or qualified name refers to."""
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.cls and (self.prefix or self.cls not in self.decl):
            n = e.attr
        elif isinstance(e, ast.Name):
            n = e.id
            for s in scope:
                if n in s:
                    return s[n]
        else:
            return None
        if n not in self.decl and (isinstance(e, ast.Name) or n not in self.empty.typedefs):
            return None
        return self.cs.resolve(n) if n in self.cs.typedefs else None

    def names(self, e, t, scope):
        """Whether the type hint ``e`` names the type ``t``."""
        ty = self.env.lib.types
        if isinstance(e, ast.Subscript):
            base = self.lib_class(e.value)
            if base is ty.Pointer and issubclass(t, ty.Pointer):
                return self.names(e.slice, t.type, scope)
            if base is ty.Array and issubclass(t, ty.BaseArray):
                return self.names(e.slice, t.type, scope)
            return False
        c = self.lib_class(e)
        if c in (ty.CharArray, ty.WcharArray):
            return issubclass(t, c)
        n = self.name(e, scope)
        if isinstance(n, ast.ClassDef):
            if (id(n), t) in self.seen:
                return self.seen[id(n), t]
            self.seen[id(n), t] = True
            self.seen[id(n), t] = r = issubclass(t, ty.Structure) and n.name == t.__name__ and self.structure(n, t, scope)
            return r
        if n is not None:
            return n is t
        # types without a Python name
        elementary = not issubclass(t, (ty.BaseArray, ty.Pointer))
        return isinstance(c, type) and elementary and not is_name(t.__name__) and issubclass(t, c)

    # -- declarations

    def base(self, node, t):
        """Whether a class declaration has the right base class."""
        return len(node.bases) == 1 and not node.keywords and self.lib_class(node.bases[0]) is t.__base__

    def structure(self, node, t, scope):
        env, ty, what = self.env, self.env.lib.types, f"{t!r}"
        self.seen[id(node), t] = True
        if not self.ok(self.base(node, t), "wrong base class", what):
            return False
        fields, inner, inits = {}, {}, []
        for x in node.body:
            if isinstance(x, ast.ClassDef):
                self.put(inner, x.name, x)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                self.put(fields, x.target.id, x.annotation)
            elif isinstance(x, ast.FunctionDef):
                inits.append(x)
            else:
                self.bad("unexpected declaration", ast.unparse(x))
        want = {n: f for n, f in t.fields.items() if is_name(n)}
        if len(want) < len(t.fields):
            env.reach("undeclarable name")
        good = self.ok(set(want) == set(fields), "fields differ", f"{what} {sorted(want)} {sorted(fields)}")
        scope = [inner, *scope]
        for n, e in fields.items():
            if n not in want:
                continue
            f = want[n]
            env.reach("field")
            if f.bits:
                env.reach("bit-field")
            if issubclass(f.type, ty.BaseArray):
                env.reach("array field")
            if issubclass(f.type, ty.Pointer):
                env.reach("pointer field")
            good &= self.ok(self.names(e, f.type, scope), "the hint does not name the type", f"{what}.{n}: {ast.unparse(e)} {f.type!r}")
        used = {id(x) for x in inner.values()} <= {k for k, _ in self.seen}
        good &= self.ok(used, "a class that no field refers to", f"{what} {sorted(inner)}")
        if inner:
            env.reach("inline structure")
            if len(scope) > 2:
                env.reach("nested inline structures")
        # the constructors
        good &= self.ok(all(x.name == "__init__" and [ast.unparse(d) for d in x.decorator_list] == ["overload"] for x in inits) and len(inits) == 2, "constructors differ", what)
        found = False
        for x in inits:
            a = x.args
            plain = a.args
            if a.posonlyargs:
                good &= self.ok(len(a.posonlyargs) == 2 and not a.args and not a.kwonlyargs, "constructors differ", what)
                continue
            found = True
            good &= self.ok([y.arg for y in plain[1:]] == list(want) and len(a.defaults) == len(plain) - 1 and not a.kwonlyargs and not a.vararg, "constructors differ", what)
            for y in plain[1:]:
                e = y.annotation
                if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr) and isinstance(e.right, ast.Constant) and e.right.value is None:
                    e = e.left
                if y.arg in want:
                    good &= self.ok(self.names(e, want[y.arg].type, scope), "the hint does not name the type", f"{what}({y.arg}: {ast.unparse(e)}) {want[y.arg].type!r}")
        return good & self.ok(found, "constructors differ", what)

    def enum(self, node, t):
        what = f"{t!r}"
        self.ok(self.base(node, t), "wrong base class", what)
        names = []
        for x in node.body:
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                names.append(x.targets[0].id)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                names.append(x.target.id)
            elif not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) and x.value.value is ...) and not isinstance(x, ast.Pass):
                self.bad("unexpected declaration", ast.unparse(x))
        want = [n for n in t.__members__ if is_name(n)]
        if len(want) < len(t.__members__):
            self.env.reach("undeclarable name")
        self.ok(sorted(want) == sorted(names), "members differ", f"{what} {want} {names}")

    def constant(self, name, e, v):
        env = self.env
        if not self.ok(isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == "Literal", "not a constant", f"{name}: {ast.unparse(e)}"):
            return
        e = e.slice
        env.reach("constant")
        if isinstance(v, (env.lib.types.Enum, env.lib.types.Flag)):
            env.reach("enum constant")
            v = v.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Name):
            self.bad("the constant has another value", f"{name} {ast.unparse(e)} {v!r}")
            return
        if isinstance(e, ast.Name) and e.id in self.values:
            got, spec = self.values[e.id]
            if env.is_text(v):
                kind, right = "text", spec == "r"
            elif env.is_bytes(v):
                kind, right = "bytes", spec in ("", "r")
            else:
                kind, right = "integer", spec in ("", "d", "r", "#x", "#o", "#b")
            env.reach(f"{kind} constant")
            self.ok(right, "not a literal", f"{name} {v!r} {spec!r}")
            if right:
                c = env.both(env.is_text(v) == env.is_text(got), env.is_bytes(v) == env.is_bytes(got)) and env.same(got, v)
                self.ok(c, "the constant has another value", f"{name} {got!r} {v!r}")
            return
        try:
            got = ast.literal_eval(e)
        except (ValueError, SyntaxError):
            self.ok(isinstance(v, float) and v - v != 0, "not a literal", f"{name} {ast.unparse(e)} {v!r}")
            return
        env.reach({int: "integer constant", str: "text constant", bytes: "bytes constant"}.get(type(got), "other constant"))
        same = env.same(got, v) if env.is_symbolic(v) else type(got) is env.plain_type(v) and (got == v or got != got)
        self.ok(same, "the constant has another value", f"{name} {got!r} {v!r}")

    def check(self):
        env, cs, ty = self.env, self.cs, self.env.lib.types
        self.seen = {}
        consts = [n for n in cs.consts if n not in self.empty.consts]
        types = [n for n in cs.typedefs if n not in self.empty.typedefs]
        want = {n for n in (*consts, *types) if is_name(n)}
        if len(want) < len({*consts, *types}):
            env.reach("undeclarable name")
        self.ok(want <= set(self.decl), "not declared", f"{sorted(want - set(self.decl))}")
        extra = {n for n in set(self.decl) - want if n not in self.empty.typedefs and n not in self.empty.consts}
        self.ok(not extra, "declared but not provided", f"{sorted(extra)}")
        if not want:
            env.reach("nothing")
        for n, x in self.decl.items():
            r = env.call(lambda: getattr(cs, n))
            self.ok(r.ok, "declared but not provided", n)
            if not r.ok or n not in want:
                continue
            if n in consts:
                if self.ok(isinstance(x, ast.AnnAssign), "not a constant", n):
                    self.constant(n, x.annotation, cs.consts[n])
                continue
            t = cs.resolve(n)
            if isinstance(x, ast.AnnAssign):
                self.ok(isinstance(x.annotation, ast.Name) and x.annotation.id == "TypeAlias" and x.value is not None, "not an alias", n)
                env.reach("alias")
                if issubclass(t, ty.BaseArray):
                    env.reach("alias of an array")
                if issubclass(t, ty.Pointer):
                    env.reach("alias of a pointer")
                e = x.value
                if isinstance(e, ast.Name) and e.id == n:
                    self.bad("alias of itself", n)
                elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.cls and e.attr == n:
                    self.bad("alias of itself", n)
                else:
                    self.ok(self.names(e, t, []), "the alias names another type", f"{n} = {ast.unparse(e)} {t!r}")
                continue
            # a class of this name
            if issubclass(t, (ty.Enum, ty.Flag)):
                env.reach("flag" if issubclass(t, ty.Flag) else "enum")
                self.enum(x, t)
            elif issubclass(t, ty.Structure):
                env.reach("union" if issubclass(t, ty.Union) else "structure")
                self.structure(x, t, [])
            else:
                env.reach("custom type")
                self.ok(len(x.bases) == 1 and not issubclass(t, (ty.BaseArray, ty.Pointer)), "wrong base class", n)
                self.ok(all(isinstance(y, ast.Pass) or (isinstance(y, ast.Expr) and isinstance(y.value, ast.Constant)) for y in x.body), "unexpected declaration", ast.unparse(x))
            if n != t.__name__ and is_name(t.__name__):
                # the class stands for the type, also under its own name
                self.ok(t.__name__ not in cs.typedefs or cs.resolve(t.__name__) is not t, "declared as a class of another name", n)
        # a type with several names is one class
        classes = [n for n, x in self.decl.items() if isinstance(x, ast.ClassDef) and n in cs.typedefs]
        self.ok(len({cs.resolve(n) for n in classes}) == len(classes), "a type is declared as several classes", f"{classes}")
        # unnamed types are only hinted as such where there is no name
        if any(not is_name(f.type.__name__) and issubclass(f.type, (ty.Structure, ty.Enum, ty.Flag)) for n in types for t in [cs.resolve(n)] if issubclass(t, ty.Structure) for f in t.fields.values()):
            env.reach("unnamed type")


def parse(env, r, detail):
    env.check(r.ok, "no stub", lambda: f"{detail}: {r!r}")
    if not r.ok:
        return None
    text, values = source(env, r.value)
    try:
        tree = ast.parse(text)
        compile(text, "stub", "exec")
    except (SyntaxError, ValueError) as e:
        err = repr(e)
        env.fail("not Python", lambda: f"{detail}: {err} in {text!r}")
        return None
    return tree, values, text


NAMES = [("", "cstruct"), ("__cs__.", "_c_structure"), ("", "Defs"), ("lib.", "cstruct")]


def stub(env, cs, empty, naming, detail):
    prefix, cls = naming
    args = () if naming == NAMES[0] else (prefix, cls)
    r = env.call(lambda: env.lib.tools.stubgen.generate_cstruct_stub(cs, *args))
    p = parse(env, r, detail)
    if p is None:
        return
    tree, values, text = p
    ok = len(tree.body) == 1 and isinstance(tree.body[0], ast.ClassDef)
    env.check(ok, "not one class", lambda: f"{detail}: {text!r}")
    if ok:
        node = tree.body[0]
        env.check(node.name == cls and [ast.unparse(b) for b in node.bases] == [f"{prefix}cstruct"], "wrong class", lambda: f"{detail}: {text!r}")
        Stub(env, node, cs, empty, prefix, values, f"{detail}: {text!r}").check()


# {0} keeps the names of two snippets apart
SNIPPETS = {
    "nothing": "",
    "struct": "struct S{0} {{ uint8 a; uint16 b; }};",
    "empty struct": "struct S{0} {{ }}; union U{0} {{ }};",
    "union": "union U{0} {{ uint8 a; char b[4]; struct {{ uint8 c; uint8 d; }}; }};",
    "alias of struct": "typedef struct S{0} {{ uint8 a; }} V{0}, W{0};",
    "alias of unnamed struct": "typedef struct {{ uint8 a; }} V{0};",
    "aliases of unnamed struct": "typedef struct {{ uint8 a; }} V{0}, W{0};",
    "pointer alias": "struct S{0} {{ uint8 a; }}; typedef S{0} V{0}; typedef S{0} *W{0}; typedef struct S{0} *X{0}; typedef V{0} *Y{0};",
    "pointer to unnamed": "typedef struct {{ uint8 a; }} *W{0};",
    "array of unnamed": "typedef struct {{ uint8 a; }} W{0}[3]; struct S{0} {{ W{0} x; }};",
    "underscored": "typedef struct _S{0} {{ uint8 a; }} S{0}; typedef _S{0} *PS{0}; struct L{0} {{ PS{0} p; S{0} s; _S{0} t; }};",
    "typedefs": "typedef uint8 A{0}; typedef A{0} B{0}; typedef B{0} C{0}; struct S{0} {{ A{0} a; B{0} b; C{0} c[2]; C{0} *d; }};",
    "multi-word": "typedef unsigned int A{0}; typedef unsigned long long B{0}; struct S{0} {{ unsigned short a; A{0} b; signed char c; long long d; }};",
    "array typedef": "typedef uint8 A{0}[4]; typedef A{0} B{0}; struct S{0} {{ A{0} a; B{0} b; A{0} c[2]; A{0} *d; }};",
    "char array typedef": "typedef char A{0}[4]; typedef wchar W{0}[2]; typedef char Z{0}[]; struct S{0} {{ A{0} a; W{0} w; Z{0} z; A{0} x[2]; }};",
    "pointer typedef": "typedef uint8 *P{0}; typedef P{0} *Q{0}; typedef void *V{0}; struct S{0} {{ P{0} a; Q{0} b; V{0} c; P{0} d[2]; }};",
    "array of pointers": "typedef char *A{0}[2]; struct S{0} {{ A{0} a; char *b[2][3]; uint16 *c[]; }};",
    "enum": "enum E{0} {{ A{0}, B{0} = 5 }}; struct S{0} {{ E{0} a; E{0} b[2]; E{0} c : 3; E{0} *d; }};",
    "enum base": "enum E{0} : uint8 {{ A{0} = 1 }}; enum F{0} : int16 {{ A{0} = -1 }};",
    "flag": "flag F{0} : uint16 {{ A{0}, B{0}, C{0} = 4 }}; struct S{0} {{ F{0} a; F{0} b : 3; }};",
    "empty enum": "enum E{0} {{ }}; flag F{0} {{ }};",
    "enum alias": "enum E{0} {{ A{0} }}; typedef E{0} X{0}; typedef X{0} Y{0}; typedef E{0} Z{0}[2]; struct S{0} {{ X{0} a; E{0} b; }};",
    "inline in two levels": "struct S{0} {{ struct I{0} {{ struct I{0} {{ uint8 b; }} i; uint16 c; }} i; }};",
    "named like its outer": "struct S{0} {{ struct S{0} {{ uint8 b; }} i; uint8 c; }};",
    "unnamed enum": "enum {{ CA{0}, CB{0} = 7 }}; enum : uint8 {{ CC{0} = 3 }};",
    "unnamed flag": "flag {{ GA{0}, GB{0} }};",
    "unnamed empty enum": "enum {{ }}; flag {{ }};",
    "enum keyword": "enum E{0} {{ None, True, A{0} }}; flag F{0} {{ class, from, B{0} }};",
    "unnamed enum keyword": "enum {{ pass, lambda = 9, D{0} }};" ,
    "enum special": "enum E{0} {{ name, value, self, match, _x, print }};",
    "inline struct": "struct S{0} {{ uint8 k; struct {{ uint8 a; uint8 b; }} i; struct I{0} {{ uint8 c; }} j; }};",
    "inline union": "struct S{0} {{ union {{ uint8 a; uint16 b; }} i; union I{0} {{ uint8 c; uint32 d; }} j; }};",
    "inline array": "struct S{0} {{ struct {{ uint8 a; }} i[2]; struct I{0} {{ uint8 c; }} j[3]; struct {{ uint8 e; }} k[2][2]; }};",
    "inline pointer": "struct S{0} {{ struct {{ uint8 a; }} *i; struct I{0} {{ uint8 c; }} *j; struct {{ uint8 e; }} *k[2]; }};",
    "inline in inline": "struct S{0} {{ struct {{ uint8 a; struct {{ uint8 b; union {{ uint8 c; }} z; }} y; }} x; }};",
    "anonymous": "struct S{0} {{ uint8 k; struct {{ uint8 a; uint8 b; }}; union {{ uint8 c; uint16 d; }}; }};",
    "anonymous in anonymous": "struct S{0} {{ struct {{ uint8 a; union {{ uint8 b; struct {{ uint8 c; char d[2]; }}; }}; }}; }};",
    "inline in anonymous": "struct S{0} {{ struct {{ struct {{ uint8 a; }} i; struct I{0} {{ uint8 z; }} h[2]; }}; }};",
    "same name": "struct I{0} {{ uint16 z; }}; struct S{0} {{ struct I{0} {{ uint8 b; }} i; }}; struct V{0} {{ I{0} i; }};",
    "same name twice": "struct S{0} {{ struct I{0} {{ uint8 b; }} i; }}; struct V{0} {{ struct I{0} {{ uint16 c; }} i; }};",
    "nested global": "struct I{0} {{ uint8 a; }}; struct S{0} {{ I{0} a; I{0} b[2]; I{0} *c; struct I{0} d; I{0} e[2][2]; I{0} *f[2]; }};",
    "recursive": "struct S{0} {{ uint8 v; S{0} *next; S{0} *more[2]; struct S{0} *prev; struct {{ S{0} *deep; }} in_; }};",
    "mutual": "struct A{0} {{ uint8 v; }}; struct B{0} {{ A{0} *a; struct {{ A{0} x; }} y; }};",
    "field keyword": "struct S{0} {{ uint8 from; uint16 class; uint8 None; uint8 ok; struct {{ uint8 a; }} pass; }};",
    "field special": "struct S{0} {{ uint8 self; uint16 _self; uint8 fh; uint8 cls; uint8 type; uint8 match; uint8 __x; uint8 init; }};",
    "field type name": "struct S{0} {{ uint8 S{0}; uint16 uint8; uint32 I; }};",
    "field inline name": "struct S{0} {{ struct I{0} {{ uint8 a; }} I{0}; uint8 uint16; }};",
    "struct keyword": "struct class {{ uint8 a; }}; struct S{0} {{ class a; class b[2]; class *c; }};",
    "alias keyword": "typedef uint8 None; typedef uint16 is; struct S{0} {{ None a; is b; }};",
    "bits": "struct S{0} {{ uint8 a : 3; uint8 b : 5; uint32 c : 31; }};",
    "dynamic": "struct S{0} {{ uint8 n; char a[n]; uint16 b[n + 1]; wchar c[n][2]; uint8 d[]; uint16 e[NULL]; }};",
    "eof": "struct S{0} {{ uint8 n; uint16 b[EOF]; }};",
    "types": "struct S{0} {{ int8 a; int24 b; uint48 c; uint128 d; float16 e; float f; double g; uleb128 h; ileb128 i; wchar j; void *k; DWORD l; uint8_t m; WORD n; unsigned __int64 o; signed short p; }};",
    "define": "#define A{0} 1\n#define B{0} 0x10\n#define C{0} (A{0} + 2)\n#define D{0} -4\n",
    "define text": "#define A{0} \"x y\"\n#define B{0} 'it is'\n#define C{0} \"it's\"\n#define D{0} \"a\\\\b\\n\"\n",
    "define bytes": "#define A{0} b'x'\n#define B{0} b\"\\x00\\xff'\"\n",
    "define floats": "#define A{0} 1.5\n#define B{0} 1e999\n#define C{0} -2.5e-3\n",
    "define others": "#define A{0} (1, 2)\n#define B{0} {{1}}\n#define C{0} [1, 'a']\n#define D{0} {{'a': 1}}\n#define E{0} None\n#define F{0} True\n",
    "define calls": "#define FOO{0}(x) 1\n#define BAR{0}(x, y) 2\n#define A{0} 3\n",
    "define keywords": "#define None 1\n#define in 2\n#define match 3\n#define _ 4\n",
    "define strings": "#define A{0} some other text\n#define B{0} B{0}x\n",
    "everything": "#define N{0} 2\ntypedef uint32 U{0}; enum E{0} : uint8 {{ X{0} = N{0} }}; struct S{0} {{ U{0} a[N{0}]; E{0} b; struct {{ E{0} c; }} d; }}; typedef S{0} T{0}; struct R{0} {{ T{0} t; S{0} *s; }};",
}  # fmt: skip

# what is done to the object afterwards
EXTRAS = {
    "nothing": lambda env, cs: None,
    "names": lambda env, cs: [cs.add_type("xa", "uint8"), cs.add_type("xb", "xa"), cs.add_type("xc", "xb")],
    "array": lambda env, cs: [cs.add_type("xa", cs.uint8[env.int("count", 0, 1 << 40)]), cs.add_type("xb", cs.char[env.int("chars", 0, 1 << 40)]), cs.add_type("xc", cs.wchar[env.int("wchars", 0, 9)])],
    "named arrays": lambda env, cs: [cs.add_type("xa", cs.uint16[3]), cs.add_type("xb", "xa"), cs.add_type("xc", cs.resolve("xb")[env.int("count", 0, 1 << 40)])],
    "pointer": lambda env, cs: [cs.add_type("xa", cs._make_pointer(cs.uint8)), cs.add_type("xb", cs._make_pointer(cs.resolve("xa"))), cs.add_type("xc", "xb")],
    "custom": lambda env, cs: custom(env, cs),
    "again": lambda env, cs: again(env, cs),
    "loaded name": lambda env, cs: [cs.add_type(f"y{n}", n) for n in list(cs.typedefs)[-2:]],
    "loaded type": lambda env, cs: [cs.add_type(f"y{i}", cs.resolve(n)) for i, n in enumerate(list(cs.typedefs)[-2:])],
}  # fmt: skip


def custom(env, cs):
    class Mine(env.lib.types.BaseType):
        @classmethod
        def _read(cls, stream, context=None):
            return None

    cs.add_custom_type("xcustom", Mine, 4, 4)
    cs.load("struct xs { xcustom a; xcustom b[2]; };", compiled=False)


def again(env, cs):
    cs.load("struct xs { uint8 a; struct { uint8 b; } c; }; typedef xs xt;", compiled=False)
    cs.load("struct xu { xs a; xt *b; };", compiled=False)
    env.reach("loaded twice")


def symbols(env, cs, with_enum, flags=1):
    """Constants with symbolic values."""
    size = env.choice("size", [0, 1, 3]) if with_enum else 2
    cs.consts["xI"] = env.int("integer", -(1 << 160), 1 << 160)
    cs.consts["xS"] = env.wtext("text", size)
    cs.consts["xB"] = env.bytes("bytes", size)
    if with_enum:
        cs.load("enum { xM = 1, xN }; flag : uint8 { xF = 1 }; enum xE : int8 { xEA };", compiled=False)
        cs.consts["xM2"] = type(cs.xM)(env.int("member", 0, 0xFFFFFFFF))
        cs.consts["xF2"] = type(cs.xF)(env.int("flag", 0, flags))
        cs.consts["xE2"] = cs.xE(env.int("named", -128, 127))
        env.reach("enum constant")


def text_of(keys):
    return " ".join(SNIPPETS[k].format("AbcZ"[i] if i else "") for i, k in enumerate(keys))


def definitions(env, keys, extra, naming, align, compiled, symbolic):
    env.tag = " + ".join(keys) + f" {extra}"
    text = text_of(keys)
    cs, empty = env.lib.cstruct(), env.lib.cstruct()
    env.note(f"load({text!r}, align={align}, compiled={compiled}) {extra} {naming}")
    r = env.call(lambda: cs.load(text, align=align, compiled=compiled))
    if not r.ok:
        env.skip("refused")
    EXTRAS[extra](env, cs)
    if symbolic:
        symbols(env, cs, symbolic == "enum", 255 if keys[0] in ("nothing", "unnamed enum") else 1)
    stub(env, cs, empty, naming, text)


def fragments(env, keys, union, naming, wrap):
    env.tag = " ".join(keys)
    st = M.build(keys, union=union)
    text = st.source()
    if wrap == "pointer":
        text += " typedef T *PT; struct W { PT a; T b[2]; struct { T c; } d; };"
    elif wrap == "inline":
        text += " struct W { struct " + st.text().split("struct", 1)[-1].split("union", 1)[-1].strip().removeprefix("T").rstrip("; ") + " i[2]; };"
    cs, empty = env.lib.cstruct(), env.lib.cstruct()
    env.note(f"load({text!r}) {naming}")
    cs.load(text, compiled=False)
    symbols(env, cs, False)
    stub(env, cs, empty, naming, text)


def file_stub(env, sets, names, others):
    """The stub of a file declares each cstruct object."""
    env.tag = f"{sets}"
    module = pytypes.ModuleType("definitions")
    objects = {}
    module.__dict__.update(others)
    if "without cstruct" not in others:
        module.cstruct = env.lib.cstruct
    for k, (keys, name) in enumerate(zip(sets, names)):
        cs = env.lib.cstruct()
        r = env.call(lambda: cs.load(text_of(keys), compiled=False))
        if not r.ok:
            env.skip("refused")
        symbols(env, cs, False) if k == 0 else None
        objects[name] = cs
        module.__dict__[name] = cs
    g = env.lib.tools.stubgen
    old = g.load_module
    g.load_module = lambda path, base: module
    detail = f"{sets} {names}"
    try:
        r = env.call(lambda: g.generate_file_stub(Path("definitions.py"), Path(".")))
    finally:
        g.load_module = old
    if not objects or "without cstruct" in others:
        env.check(r.ok and r.value == "", "a stub of nothing", lambda: f"{detail}: {r!r}")
        return
    p = parse(env, r, detail)
    if p is None:
        return
    tree, values, text = p
    empty = env.lib.cstruct()
    imported, classes, aliases = set(), {}, {}
    for x in tree.body:
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                imported.add(a.asname or a.name)
        elif isinstance(x, ast.ClassDef):
            classes[x.name] = x
        elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
            aliases[x.target.id] = x.value
        else:
            env.fail("unexpected declaration", lambda: f"{detail}: {text!r}")
    env.check(set(aliases) == set(objects), "not the objects of the file", lambda: f"{detail}: {sorted(aliases)} {sorted(objects)}")
    used = set()
    for name, e in aliases.items():
        ok = isinstance(e, ast.Name) and e.id in classes and name in objects
        env.check(ok, "the object has no class", lambda: f"{detail}: {name} {text!r}")
        if ok:
            node = classes[e.id]
            used.add(e.id)
            bases = [ast.unparse(b) for b in node.bases]
            ok = len(bases) == 1 and bases[0].endswith("cstruct")
            env.check(ok, "wrong class", lambda: f"{detail}: {text!r}")
            if ok:
                prefix = bases[0].removesuffix("cstruct")
                env.check(bases[0].split(".")[0] in imported, "not imported", lambda: f"{detail}: {text!r}")
                Stub(env, node, objects[name], empty, prefix, values, f"{detail}: {text!r}").check()
    env.check(used == set(classes) and len(used) == len(objects), "classes differ", lambda: f"{detail}: {sorted(classes)}")
    env.check({"Literal", "overload", "TypeAlias", "BinaryIO"} <= imported, "not imported", lambda: f"{detail}: {sorted(imported)}")
    env.reach("file")
    if len(objects) > 1:
        env.reach("two in a file")


CORE = ["struct", "union", "pointer alias", "underscored", "array typedef", "enum", "unnamed enum", "inline array", "anonymous", "same name", "recursive", "define text", "field special"]


def jobs(tier, lib):
    quick = tier == "quick"
    keys = list(SNIPPETS)
    n = 0
    for i, k in enumerate(keys):
        for j, x in enumerate(EXTRAS):
            if quick and x not in ("nothing", list(EXTRAS)[1 + i % (len(EXTRAS) - 1)], list(EXTRAS)[1 + (i // 3 + 4) % (len(EXTRAS) - 1)]):
                continue
            if k in ("nothing", "define", "define text", "define bytes", "define floats", "define others", "define calls", "define keywords", "define strings") and x in ("loaded name", "loaded type") and quick:
                continue
            n += 1
            for m, naming in enumerate(NAMES):
                if quick and (n + m) % 2 and x != "nothing":
                    continue
                yield Job(definitions, {"keys": [k], "extra": x, "naming": naming, "align": bool(n & 1), "compiled": bool(n & 2), "symbolic": "enum" if not quick or (x == "nothing" and m == i % 4) else True}, cost=1)
    unique = {"struct keyword", "alias keyword", "define keywords", "unnamed enum keyword", "field keyword", "enum keyword"}
    for i, a in enumerate(keys):
        for j, b in enumerate(keys):
            if (quick and (i + j) % 2) or (a in unique and b in unique) or a == "nothing" or b == "nothing":
                continue
            yield Job(definitions, {"keys": [a, b], "extra": "nothing", "naming": NAMES[(i + j) % 4], "align": False, "compiled": False, "symbolic": True}, cost=1)
    if not quick:
        for i, a in enumerate(CORE):
            for j, b in enumerate(CORE):
                for m, c in enumerate(CORE):
                    yield Job(definitions, {"keys": [a, b, c], "extra": "nothing", "naming": NAMES[(i + j + m) % 4], "align": False, "compiled": False, "symbolic": True}, cost=1)
    frags = [*M.FIXED_ALL, *M.BITS_ALL, *M.DYN_ALL, *M.EOF_ALL]
    for i, k in enumerate(frags):
        for m, wrap in enumerate((None, "pointer")):
            yield Job(fragments, {"keys": [k], "union": (i + m) % 3 == 0 and k in M.FIXED_ALL, "naming": NAMES[(i + m) % 4], "wrap": wrap}, cost=1)
    for i, a in enumerate(M.CORE + M.CORE_BITS + M.CORE_DYN):
        for j, b in enumerate(M.CORE + M.CORE_BITS + M.CORE_DYN):
            if quick and (i + 2 * j) % 9:
                continue
            yield Job(fragments, {"keys": [a, b], "union": False, "naming": NAMES[(i + j) % 4], "wrap": (None, "pointer")[(i + j) // 2 % 2]}, cost=1)
    files = [[], [["nothing"]], [["struct"]], [["define"], ["struct"]], [["struct"], ["struct"]], [["nothing"], ["everything"], ["unnamed enum"]], [["everything", "recursive"], ["nothing"]], [["enum"], ["define"], ["define text"]]]
    for i, sets in enumerate(files):
        yield Job(file_stub, {"sets": sets, "names": ["c_def", "cs", "_x"][: len(sets)], "others": {"a": 1, "T": int, "__all__": []} if i % 2 else {}}, cost=1)
    yield Job(file_stub, {"sets": [["struct"]], "names": ["c_def"], "others": {"without cstruct": 1}}, cost=1)
    for i, k in enumerate(keys):
        if not quick or i % 4 == 0:
            yield Job(file_stub, {"sets": [[k], ["struct"]], "names": ["c_def", "other"], "others": {}}, cost=1)


_ = ext
