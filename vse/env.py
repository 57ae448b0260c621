"""What a harness sees.  The same harness runs symbolically (inputs are terms) and natively (inputs are a model)."""

from __future__ import annotations

import io
import os

import z3

from . import core, shims, values
from .canon import canon, ceq
from .core import IT, CheckFailed, Gap, b_and, b_eq, b_le, b_not, b_or
from .values import SBool, cond, mkbytes, mkstr, raw, wrap


class Result:
    """Outcome of a call: ``ok`` with ``value``, or the exception."""

    __slots__ = ("exc", "ok", "value")

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def kind(self):
        return None if self.ok else type(self.exc).__name__

    def __repr__(self):
        return f"ok({self.value!r})" if self.ok else f"raised {self.kind}: {self.exc}"


TIER = os.environ.get("VERIF_TIER") or "quick"


class NativeAbort(BaseException):
    """An assumption does not hold for the replayed inputs."""


class Env:
    def __init__(self, lib, ctx=None, inputs=None, known=None):
        self.lib = lib
        self.ctx = ctx
        self.sym = ctx is not None
        self.inputs = inputs or {}
        self.known_keys = known or {}
        self.known_hits = {}
        self.obs = []
        self.notes = []
        self.reached = []
        self.checks = 0
        self.tag = None
        self.limit = TIER

    # -- inputs ------------------------------------------------------------------------------------------------
    def bytes(self, name, n):
        if not self.sym:
            return bytes(self.inputs[name])
        els = [z3.BitVec(f"{name}[{i}]", 8) for i in range(n)]
        self.ctx.inputs[name] = ("bytes", els)
        return mkbytes(els)

    def mixed(self, name, template):
        """Bytes of which those that are ``None`` in ``template`` are symbolic."""
        if not self.sym:
            return bytes(self.inputs[name])
        els = [z3.BitVec(f"{name}[{i}]", 8) if e is None else e for i, e in enumerate(template)]
        self.ctx.inputs[name] = ("bytes", els)
        return mkbytes(els)

    def int(self, name, lo, hi):
        if not self.sym:
            return self.inputs[name]
        if lo == hi:
            self.ctx.inputs[name] = ("int", lo)
            return lo
        w = core.wof(lo, hi)
        t = z3.BitVec(name, w)
        v = IT(t, lo, hi)
        if lo >= 0:
            if hi != (1 << (w - 1)) - 1:
                self.ctx.add(z3.And(t >= lo, t <= hi))
            else:
                u = z3.BitVec(name, w - 1)
                v = IT(z3.ZeroExt(1, u), lo, hi)
                if lo > 0:
                    self.ctx.add(z3.UGE(u, lo))
        elif (lo, hi) != (-(1 << (w - 1)), (1 << (w - 1)) - 1):
            self.ctx.add(z3.And(t >= lo, t <= hi))
        self.ctx.inputs[name] = ("int", v)
        return wrap(v)

    def text(self, name, n, alphabet):
        """``n`` characters, each from ``alphabet``."""
        if not self.sym:
            return "".join(map(chr, self.inputs[name]))
        els = [z3.BitVec(f"{name}[{i}]", 21) for i in range(n)]
        self.ctx.inputs[name] = ("str", els)
        for e in els:
            self.ctx.add(z3.Or(*[e == ord(c) for c in alphabet]))
        return mkstr(els)

    def wtext(self, name, n):
        """``n`` characters of the basic multilingual plane (no surrogates)."""
        if not self.sym:
            return "".join(map(chr, self.inputs[name]))
        els = [z3.ZeroExt(5, z3.BitVec(f"{name}[{i}]", 16)) for i in range(n)]
        self.ctx.inputs[name] = ("str", els)
        for e in els:
            self.ctx.add(z3.Or(z3.ULT(e, 0xD800), z3.UGT(e, 0xDFFF)))
        return mkstr(els)

    def choice(self, name, options):
        options = list(options)
        if not self.sym:
            return options[self.inputs[name]]
        i = self.ctx.choose(len(options))
        self.ctx.choices[name] = i
        return options[i]

    # -- assertions --------------------------------------------------------------------------------------------
    def assume(self, c):
        c = cond(c)
        if not self.sym:
            if not c:
                raise NativeAbort
            return
        self.ctx.assume(c)

    def check(self, c, label, detail=None, known=()):
        """The property: ``c`` must hold for every value on this path.

        ``known`` is a list of (key, condition): a listed finding excuses a failure inside its own condition only.
        """
        c = cond(c)
        self.checks += 1
        if isinstance(known, tuple) and known and isinstance(known[0], str):
            known = [known]
        for key, kc in known:
            if key not in self.known_keys:
                continue
            kc = cond(kc)
            if not self.sym:
                if not c and kc:
                    self.known_hits.setdefault(key, label)
                    return
                continue
            if key not in self.known_hits:
                bad = b_and(b_not(c), kc)
                if bad is not False and bad is not True:
                    bad = core.zb(bad)
                if bad is not False:
                    m = self.ctx.get_model() if bad is True else self.ctx.feasible(bad)
                    if m is True:
                        m = self.ctx.model
                    if m is not False and m is not None:
                        self.known_hits[key] = (label, self.ctx.input_values(m))
            c = b_or(c, kc)
        if not self.sym:
            if not c:
                raise CheckFailed(label, None, self._detail(detail))
            return
        self.ctx.check(c, label, detail)

    def _detail(self, d):
        try:
            return d() if callable(d) else d
        except Exception as e:  # noqa: BLE001
            return f"(no detail: {e})"

    def fail(self, label, detail=None, known=()):
        self.check(False, label, detail, known)

    def reach(self, name):
        """Vacuity witness: this point was reached on a feasible path."""
        if name not in self.reached:
            self.reached.append(name)

    def skip(self, why):
        """This choice is outside the property's domain."""
        self.note(why)
        if self.sym:
            raise core.PathAbort
        raise NativeAbort

    # -- helpers -----------------------------------------------------------------------------------------------
    def canon(self, v):
        return canon(v, self.lib)

    def same(self, a, b):
        """Deep equality of two library values, as a condition (no forking)."""
        return ceq(self.canon(a), self.canon(b))

    def ceq(self, a, b):
        return ceq(a, b)

    def eq(self, a, b):
        """Equality of two int-likes as a condition."""
        return b_eq(raw(a), raw(b))

    def le(self, a, b):
        return b_le(raw(a), raw(b))

    def max(self, *xs):
        return shims._minmax("max")(*xs) if self.sym else max(xs)

    def both(self, *cs):
        return b_and(*[cond(c) for c in cs])

    def either(self, *cs):
        return b_or(*[cond(c) for c in cs])

    def no(self, c):
        return b_not(cond(c))

    def branch(self, c):
        """Decide a condition here (forks)."""
        c = cond(c)
        return self.ctx.branch(c) if self.sym else bool(c)

    def observe(self, name, v):
        c = v if isinstance(v, tuple) and v and isinstance(v[0], str) else self.canon(v)
        self.obs.append((name, c))

    def note(self, s):
        self.notes.append(s)

    def call(self, f, *a, **k):
        try:
            return Result(True, f(*a, **k), None)
        except z3.Z3Exception as e:
            raise Gap(f"z3: {e}") from e
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001
            return Result(False, None, e)

    def stream(self, data):
        return shims.SBytesIO(data) if self.sym else io.BytesIO(data)

    def num(self, x):
        """int(x)"""
        return values.SInt(x) if self.sym else int(x)

    def is_text(self, x):
        return isinstance(x, (str, values.SStr))

    def is_bytes(self, x):
        return isinstance(x, (bytes, values.SBytes))

    def is_symbolic(self, x):
        return values.is_symbolic(x)

    def plain_type(self, x):
        """The built-in type that a value is of."""
        for t, s in ((int, values.SInt), (str, values.SStr), (bytes, values.SBytes), (float, values.SFloat)):
            if type(x) is s:
                return t
        return type(x)

    def repr(self, x):
        return shims.s_repr(x) if self.sym else repr(x)

    def hex(self, x):
        return shims.s_hex(x) if self.sym else hex(x)

    def format(self, x, spec):
        return shims.fmt1(x, spec) if self.sym else format(x, spec)

    def join(self, parts):
        return shims.cat(list(parts)) if self.sym else "".join(parts)

    def tokens(self, s):
        """A text as characters and renderings of symbolic values: (value, spec)."""
        codes = self.codes(s)
        if not self.sym:
            return codes
        out, i = [], 0
        while i < len(codes):
            if type(codes[i]) is int and codes[i] == ord(values.PH_OPEN):
                j = codes.index(ord(values.PH_CLOSE), i)
                out.append(self.ctx.placeholders[int("".join(map(chr, codes[i + 1 : j])))])
                i = j
            else:
                out.append(codes[i])
            i += 1
        return out

    def same_tokens(self, a, b):
        """Equality of two such lists, as a condition."""
        if len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            if type(x) is tuple or type(y) is tuple:
                if type(x) is not type(y) or (x[1] or "d") != (y[1] or "d"):
                    return False
                cs.append(self.same(x[0], y[0]))
            else:
                cs.append(values.els_eq([x], [y]))
        return b_and(*cs)

    def hash(self, x):
        return shims.s_hash(x) if self.sym else hash(x)

    def hash_eq(self, a, b):
        return cond(self.hash(a) == self.hash(b))

    def native_bool(self, x):
        """bool(x) as the library's own truth test gives it (may fork)."""
        return bool(x)

    def bytearray(self, x):
        return values.SByteArray(x) if self.sym else bytearray(x)

    def memoryview(self, x):
        return values.SMemoryView(x) if self.sym else memoryview(x)

    def mkbytes(self, els):
        return mkbytes([e if type(e) is int or z3.is_bv(e) else core.simp_el(core.ext(raw(e), 8)) for e in els])

    def raw(self, x):
        return raw(x)

    def mkint_el(self, e):
        return wrap(core.byte_it(e))

    def mkint_code(self, e):
        return wrap(core.code_it(e))

    def mkint(self, r):
        return wrap(r)

    def els(self, b):
        return list(values.bytes_els(b))

    def codes(self, s):
        return list(values.str_els(s))

    def load(self, text, **kw):
        """A fresh cstruct with ``text`` loaded."""
        init = {k: kw.pop(k) for k in ("endian", "pointer") if k in kw}
        cs = self.lib.cstruct(**init)
        self.note(f"cstruct({init}).load({text!r}, {kw})")
        cs.load(text, **kw)
        return cs


__all__ = ["Env", "NativeAbort", "Result", "SBool"]
