"""Loads the package's real source under replaced builtins (regenerated from the working tree on every run)."""

from __future__ import annotations

import ast
import builtins as nb
import collections as _collections
import enum as _enum
import functools as _functools
import os
import re as _re
import sys
import types as _types

from . import shims as S
from .values import SBytes, SByteArray, SFloat, SInt, SMemoryView, SStr

REPO = os.environ.get("VSE_REPO", "/repo")
PKG = "dissect.cstruct"


def _plain(e):
    """An expression without side effects."""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id in ("chr", "str") and not e.keywords and all(map(_plain, e.args))
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, ast.Add) and _plain(e.left) and _plain(e.right)
    if isinstance(e, ast.JoinedStr):
        return all(isinstance(v, ast.Constant) or _plain(v.value) and (v.format_spec is None or _plain(v.format_spec)) for v in e.values)
    return False


class T(ast.NodeTransformer):
    """Rewrites the operations whose native implementation cannot see a symbolic operand."""

    def _call(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]), node
        )

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                parts.append(
                    ast.copy_location(
                        ast.Tuple(elts=[v.value, ast.Constant(v.conversion), spec], ctx=ast.Load()), node
                    )
                )
            else:
                parts.append(v)
        return self._call("__vf_fstr__", parts, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._call("__vf_in__", [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), node)
            return c
        return node

    def visit_IfExp(self, node):
        """``x if test else y`` of plain expressions: both values are merged where that is possible."""
        if self.depth and _plain(node.body) and _plain(node.orelse):
            args = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
            test = self._test(node.test)
            yes, no = (ast.copy_location(ast.Lambda(args, self.visit(x)), node) for x in (node.body, node.orelse))
            return self._call("__vf_if__", [test, yes, no], node)
        self.generic_visit(node)
        return node

    def _test(self, t):
        """A condition that may stay symbolic."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self._call("__vf_not__", [self._test(t.operand)], t)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)):
            c = self._call("__vf_inl__", [self.visit(t.left), self.visit(t.comparators[0])], t)
            return self._call("__vf_not__", [c], t) if isinstance(t.ops[0], ast.NotIn) else c
        if isinstance(t, ast.Compare) and len(t.ops) == 2 and all(isinstance(x, (ast.Name, ast.Constant)) for x in (t.left, *t.comparators)):
            a, b = (ast.copy_location(ast.Compare(x, [op], [y]), t) for x, op, y in zip((t.left, *t.comparators), t.ops, t.comparators))
            return self._call("__vf_and__", [self._test(a), self._test(b)], t)
        return self.visit(t)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Constant, ast.Slice, ast.UnaryOp)):
            return self._call("__vf_get__", [node.value, node.slice], node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, (ast.Constant, ast.Slice, ast.UnaryOp)):
                return ast.copy_location(
                    ast.Expr(self._call("__vf_set__", [t.value, t.slice, node.value], node)), node
                )
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in S.METHODS:
            return ast.copy_location(
                ast.Call(
                    func=ast.copy_location(ast.Name(id="__vf_m__", ctx=ast.Load()), node),
                    args=[f.value, ast.Constant(f.attr), *node.args],
                    keywords=node.keywords,
                ),
                node,
            )
        if isinstance(f, ast.Name) and f.id == "type" and len(node.args) == 1 and not node.keywords:
            f.id = "__vf_type__"
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("__vf_mod__", [node.left, node.right], node)
        return node

    depth = 0

    def _fn(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        if node.name in ("__bool__", "__contains__"):
            for n in ast.walk(node):
                if isinstance(n, ast.Return) and n.value is not None:
                    n.value = self._call("__vf_bool__", [n.value], n)
        return node

    visit_FunctionDef = _fn

    def visit_AnnAssign(self, node):
        if node.value is None or isinstance(node.target, ast.Subscript):
            return node
        node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


class TGen(T):
    """For generated code: templates whose name table is patched later must keep the names they have."""

    visit_FunctionDef = ast.NodeTransformer.generic_visit


_CODE = {}


def instrument(source, filename, mode="exec", generated=False):
    """Compiled and rewritten ``source``; equal text gives an equal (immutable) code object, so it is kept."""
    key = (source, filename, mode, generated)
    code = _CODE.get(key)
    if code is None:
        if len(_CODE) > 5000:
            _CODE.clear()
        code = _CODE[key] = _instrument(source, filename, mode, generated)
    return code


def _instrument(source, filename, mode, generated):
    tree = ast.parse(source, filename, mode)
    tree = ast.fix_missing_locations((TGen if generated else T)().visit(tree))
    return nb.compile(tree, filename, mode, dont_inherit=True)


class Lib:
    """One instrumented instance of the package."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}
        self.shims = {"io": S.make_io(), "struct": S.make_struct(), "re": S.make_re(), "binascii": S.make_binascii(), "ast": S.make_ast(), "pprint": S.make_pprint()}
        self.files = {}
        b = dict(vars(nb))
        b.update(
            int=SInt,
            bytes=SBytes,
            str=SStr,
            float=SFloat,
            bytearray=SByteArray,
            memoryview=SMemoryView,
            isinstance=S.s_isinstance,
            issubclass=S.s_issubclass,
            ord=S.s_ord,
            chr=S.s_chr,
            hex=S.s_hex,
            bin=S.s_bin,
            oct=S.s_oct,
            repr=S.s_repr,
            format=S.s_format,
            range=S.s_range,
            any=S.s_any,
            all=S.s_all,
            max=_minmax_max,
            min=_minmax_min,
            len=S.s_len,
            hash=S.s_hash,
            getattr=S.s_getattr,
            hasattr=S.s_hasattr,
            setattr=S.s_setattr,
            print=S.s_print,
            exec=self._exec,
            eval=self._eval,
            compile=self._compile,
            __import__=self._import,
            __vf_fstr__=S.vf_fstr,
            __vf_in__=S.vf_in,
            __vf_if__=S.vf_if,
            __vf_inl__=S.vf_inl,
            __vf_not__=S.vf_not,
            __vf_and__=S.vf_and,
            __vf_get__=S.vf_get,
            __vf_set__=S.vf_set,
            __vf_m__=S.vf_m,
            __vf_mod__=S.vf_mod,
            __vf_type__=S.s_type,
            __vf_bool__=S.vf_bool,
        )
        self.builtins = b
        bm = _types.ModuleType("builtins")
        bm.__dict__.update(b)
        self.shims["builtins"] = bm
        self._snap = None

    # -- import ------------------------------------------------------------------------------------------------
    def _path(self, name):
        if name == "enum":
            return _enum.__file__, False
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        if os.path.isdir(base):
            return None, True
        return None, None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
        path, ispkg = self._path(name)
        if ispkg is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = _types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.join(self.repo, *name.split("."))]
        self.modules[name] = m
        if path is not None:
            m.__file__ = path
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
            try:
                exec(instrument(src, path), m.__dict__)
            except BaseException:
                del self.modules[name]
                raise
        if parent:
            setattr(self.modules[parent], leaf, m)
        return m

    def _mine(self, name):
        return name == "dissect" or name == "enum" or name.startswith("dissect.")

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            name = f"{base}.{name}" if name else base
        if name in self.shims:
            return self.shims[name]
        if not self._mine(name):
            return nb.__import__(name, globals, locals, fromlist, 0)
        m = self.load(name)
        if not fromlist:
            return self.modules[name.partition(".")[0]]
        for f in fromlist:
            if f != "*" and not hasattr(m, f) and self._path(f"{name}.{f}")[1] is not None and hasattr(m, "__path__"):
                self.load(f"{name}.{f}")
        return m

    # -- generated code ----------------------------------------------------------------------------------------
    def _src(self, s):
        return s._native() if isinstance(s, SStr) else bytes(s) if isinstance(s, SBytes) else s

    def _compile(self, source, filename, mode, flags=0, dont_inherit=False, optimize=-1, **kw):
        if isinstance(source, ast.AST) or flags & ast.PyCF_ONLY_AST:
            return nb.compile(source, self._src(filename), mode, flags, True, optimize, **kw)
        return instrument(self._src(source), self._src(filename), mode, True)

    def _exec(self, code, globals=None, locals=None, /, **kw):
        if not isinstance(code, _types.CodeType):
            code = instrument(self._src(code), "<string>", generated=True)
        if globals is None:
            f = sys._getframe(1)
            globals, locals = f.f_globals, f.f_locals if locals is None else locals
        globals.setdefault("__builtins__", self.builtins)
        if locals is None:
            nb.exec(code, globals, **kw)
        else:
            nb.exec(code, globals, locals, **kw)

    def _eval(self, code, globals=None, locals=None, /):
        if not isinstance(code, _types.CodeType):
            code = instrument(self._src(code).strip(), "<string>", "eval")
        if globals is None:
            f = sys._getframe(1)
            globals, locals = f.f_globals, f.f_locals if locals is None else locals
        globals.setdefault("__builtins__", self.builtins)
        return nb.eval(code, globals, locals)

    # -- isolation between paths -------------------------------------------------------------------------------
    def _state(self):
        """Mutable containers and objects that outlive a call: module and class attributes, mutable defaults, closures and what these hold."""
        containers, caches, objects = {}, {}, {}

        def visit(v, depth):
            if hasattr(v, "cache_clear"):
                caches[id(v)] = v
            if isinstance(v, (classmethod, staticmethod)):
                visit(v.__func__, depth)
            elif isinstance(v, property):
                for f in (v.fget, v.fset, v.fdel):
                    visit(f, depth)
            elif isinstance(v, (_functools.partial,)):
                for x in v.args:
                    visit(x, depth)
            elif isinstance(v, _types.FunctionType):
                if id(v) in objects:
                    return
                objects[id(v)] = (v, None)
                for x in [*(v.__defaults__ or ()), *(v.__kwdefaults__ or {}).values(), *v.__dict__.values()]:
                    visit(x, depth + 1)
                for c in v.__closure__ or ():
                    try:
                        visit(c.cell_contents, depth + 1)
                    except ValueError:
                        pass
            elif isinstance(v, (dict, list, set, bytearray, _collections.deque)):
                if id(v) not in containers and depth < 4 and len(v) < 2000:
                    containers[id(v)] = (v, v.copy())
                    for x in list(v.values() if isinstance(v, dict) else v if not isinstance(v, bytearray) else ()):
                        visit(x, depth + 1)
            elif isinstance(v, (type, _types.ModuleType)):
                pass
            elif id(v) not in objects and depth < 4 and isinstance(getattr(v, "__dict__", None), dict) and (type(v).__module__ or "").startswith((PKG, "weakref", "_thread", "threading", "contextvars")):
                d = v.__dict__
                objects[id(v)] = (v, dict(d))
                for x in list(d.values()):
                    visit(x, depth + 1)

        owners = []
        seen = set()
        for n, m in list(self.modules.items()):
            if n == "enum":
                continue
            owners.append((m, dict(m.__dict__)))
            for k, v in list(m.__dict__.items()):
                if k.startswith("__") or k in ("annotations",):
                    continue
                if isinstance(v, type):
                    if getattr(v, "__module__", "").startswith(PKG) and id(v) not in seen:
                        seen.add(id(v))
                        attrs = {k: x for k, x in v.__dict__.items() if k not in ("__dict__", "__weakref__")}
                        owners.append((v, attrs))
                        for k, x in attrs.items():
                            if not k.startswith("__") or isinstance(x, (_types.FunctionType, classmethod, staticmethod)):
                                visit(x, 0)
                elif not isinstance(v, _types.FunctionType) or (v.__module__ or "").startswith(PKG) or hasattr(v, "cache_clear"):
                    visit(v, 0)
        return list(containers.values()), list(caches.values()), [o for o in objects.values() if o[1] is not None], owners

    def snapshot(self):
        self._snap = self._state()

    def restore(self):
        """Puts module-level mutable state back, so that every explored path starts from a fresh import."""
        if self._snap is None:
            self.snapshot()
            return
        containers, caches, objects, owners = self._snap
        for v, c in containers:
            if len(v) != len(c) or not (all(x is y for x, y in zip(v.values(), c.values())) and list(v) == list(c) if isinstance(v, dict) else all(x is y for x, y in zip(v, c)) if isinstance(v, list) else v == c):
                v.clear()
                (v.extend if isinstance(v, (list, bytearray, _collections.deque)) else v.update)(c)
        for f in caches:
            f.cache_clear()
        for o, c in objects:
            d = o.__dict__
            if len(d) != len(c) or any(d.get(k) is not x for k, x in c.items()):
                d.clear()
                d.update(c)
        for o, c in owners:
            d = o.__dict__
            if len(d) != len(c) + (0 if isinstance(o, _types.ModuleType) else sum(k in d for k in ("__dict__", "__weakref__"))) or any(
                d.get(k) is not x for k, x in c.items()
            ):
                for k in [k for k in d if k not in c and k not in ("__dict__", "__weakref__")]:
                    delattr(o, k)
                for k, x in c.items():
                    if d.get(k) is not x:
                        setattr(o, k, x) if not isinstance(o, type) else type.__setattr__(o, k, x)

    def get(self):
        m = self.load(PKG)
        self.load("dissect.cstruct.tools.stubgen")
        self.load("dissect.cstruct.compiler")
        return m


_minmax_max = S._minmax("max")
_minmax_min = S._minmax("min")


class NativeState(Lib):
    """Snapshot and restore of the unmodified package's module-level state."""

    def __init__(self, lib):
        self.lib = lib
        self.modules = {n: m for n, m in sys.modules.items() if n.startswith(PKG)}
        self._snap = None


_native = None
_scanners = {}


class _Scanner(_re.Scanner):
    """re.Scanner that keeps the compiled pattern of a lexicon (the unmodified package builds one per load)."""

    def __init__(self, lexicon, flags=0):
        key = (tuple(p for p, _ in lexicon), flags)
        s = _scanners.get(key)
        if s is None:
            _scanners[key] = s = _Scanner.__bases__[0](lexicon, flags).scanner
        self.lexicon = lexicon
        self.scanner = s


def native_lib(repo=REPO):
    """The unmodified package."""
    global _native
    if _native is None:
        if repo not in sys.path:
            sys.path.insert(0, repo)
        import importlib

        _re.Scanner = _Scanner
        _native = importlib.import_module(PKG)
        importlib.import_module("dissect.cstruct.tools.stubgen")
        importlib.import_module("dissect.cstruct.compiler")
        assert os.path.realpath(_native.__file__).startswith(os.path.realpath(repo)), _native.__file__
    return _native
