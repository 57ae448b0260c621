"""Symbolic values and the path engine.

Python integers are unbounded, so a symbolic integer is a *signed* SMT bit-vector that is always wide enough to
hold its value exactly: every operation computes the interval of its result first and widens the term, so nothing
ever wraps.  A branch on a symbolic condition forks the execution by re-execution with a recorded decision prefix.
"""

from __future__ import annotations

import time

import z3


class PathAbort(BaseException):
    """The current path ends here (infeasible, or an assumption failed)."""


class CheckFailed(BaseException):
    """A property assertion failed (``label``, with ``inputs`` if a model is at hand)."""

    def __init__(self, label, inputs=None, detail=None):
        super().__init__(label)
        self.label = label
        self.inputs = inputs
        self.detail = detail


class Budget(BaseException):
    """Out of time or paths."""


class Gap(BaseException):
    """The engine cannot follow the code here; the path is inconclusive."""


class Nondet(BaseException):
    """Re-execution took a different turn than recorded (an engine error)."""


# --------------------------------------------------------------------------------------------------------------
# integer terms
# --------------------------------------------------------------------------------------------------------------


class IT:
    """A symbolic integer: ``t`` is a bit-vector of exactly ``wof(lo, hi)`` bits, read as signed."""

    __slots__ = ("hi", "lo", "p2", "t")

    def __init__(self, t, lo, hi):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.p2 = None  # ("p", e) for 1 << e, ("m", e) for (1 << e) - 1


def wof(lo, hi):
    a = hi.bit_length() if hi >= 0 else (~hi).bit_length()
    b = lo.bit_length() if lo >= 0 else (~lo).bit_length()
    return (a if a > b else b) + 1


def _resize(t, w, nonneg):
    s = t.size()
    if s == w:
        return t
    if s > w:
        return z3.Extract(w - 1, 0, t)
    return z3.ZeroExt(w - s, t) if nonneg else z3.SignExt(w - s, t)


def ext(v, w):
    """The raw value ``v`` (int or IT) as a ``w``-bit term."""
    if type(v) is int:
        return z3.BitVecVal(v, w)
    return _resize(v.t, w, v.lo >= 0)


def mk(t, lo, hi):
    """A raw value from term ``t`` whose value is known to lie in [lo, hi]."""
    if lo == hi:
        return lo
    t = z3.simplify(_resize(t, wof(lo, hi), lo >= 0))
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return IT(t, lo, hi)


def rng(v):
    return (v, v) if type(v) is int else (v.lo, v.hi)


def byte_it(e):
    """A byte element (int or 8-bit term) as a raw integer."""
    if type(e) is int:
        return e
    return IT(z3.ZeroExt(1, e), 0, 255)


def top_zeros(e, depth=4):
    """How many of the most significant bits of a term are evidently zero."""
    if z3.is_bv_value(e):
        return e.size() - e.as_long().bit_length()
    kind = e.decl().kind()
    if kind == z3.Z3_OP_ZERO_EXT:
        return e.size() - e.arg(0).size() + (top_zeros(e.arg(0), depth - 1) if depth else 0)
    if not depth:
        return 0
    if kind == z3.Z3_OP_CONCAT:
        n = top_zeros(e.arg(0), depth - 1)
        return n if n < e.arg(0).size() or e.num_args() < 2 else n + top_zeros(e.arg(1), depth - 1)
    if kind == z3.Z3_OP_ITE:
        return min(top_zeros(e.arg(1), depth - 1), top_zeros(e.arg(2), depth - 1))
    return 0


def code_it(e):
    """A character element (int or 21-bit term) as raw integer."""
    if type(e) is int:
        return e
    k = 21 - top_zeros(e)
    if k < 21:
        low = z3.simplify(z3.Extract(k - 1, 0, e)) if k else 0
        return low if type(low) is int else IT(z3.ZeroExt(1, low), 0, (1 << k) - 1)
    return IT(z3.ZeroExt(1, e), 0, (1 << 21) - 1)


def simp_el(t):
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def _p2(v, kind):
    """The exponent of a value known to be a power of two ("p"), or a mask of low bits ("m"), or ``None``."""
    if type(v) is int:
        v += kind == "m"
        return v.bit_length() - 1 if v > 0 and not v & (v - 1) else None
    return v.p2[1] if v.p2 and v.p2[0] == kind else None


def _tag(v, kind, e):
    if type(v) is IT and type(e) is not int:
        v.p2 = (kind, e)
    return v


def _tdiv_floor(a, b):
    e = _p2(b, "p")
    if e is not None:
        return op_shr(a, e), op_and(a, op_sub(b, 1))
    la, ha = rng(a)
    lb, hb = rng(b)
    m = max(abs(la), abs(ha))
    lo, hi = -m - 1, m + 1
    if la >= 0 and lb > 0:
        lo, hi = 0, ha
    w = max(wof(la, ha), wof(lb, hb), wof(lo, hi)) + 1
    x, y = ext(a, w), ext(b, w)
    if la >= 0 and lb > 0:
        return mk(z3.UDiv(x, y), lo, hi), mk(z3.URem(x, y), 0, min(ha, hb - 1))
    q = x / y
    r = z3.SRem(x, y)
    adj = z3.And(r != 0, (r < 0) != (y < 0))
    q = z3.If(adj, q - 1, q)
    r = z3.If(adj, r + y, r)
    rl, rh = min(0, lb + 1), max(0, hb - 1)
    return mk(q, lo, hi), mk(r, rl, rh)


def op_add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    (la, ha), (lb, hb) = rng(a), rng(b)
    lo, hi = la + lb, ha + hb
    w = wof(lo, hi)
    r = mk(ext(a, w) + ext(b, w), lo, hi)
    for x, y in ((a, b), (b, a)):
        if type(x) is int and x == 1 and (e := _p2(y, "m")) is not None:
            return _tag(r, "p", e)
    return r


def op_sub(a, b):
    if type(a) is int and type(b) is int:
        return a - b
    (la, ha), (lb, hb) = rng(a), rng(b)
    lo, hi = la - hb, ha - lb
    w = max(wof(lo, hi), wof(la, ha), wof(lb, hb))
    r = mk(ext(a, w) - ext(b, w), lo, hi)
    if type(b) is int and b == 1 and (e := _p2(a, "p")) is not None:
        return _tag(r, "m", e)
    return r


def op_mul(a, b):
    if type(a) is int and type(b) is int:
        return a * b
    for x, y in ((a, b), (b, a)):
        if type(y) is IT and (e := _p2(y, "p")) is not None:
            return op_shl(x, e)
    (la, ha), (lb, hb) = rng(a), rng(b)
    ps = (la * lb, la * hb, ha * lb, ha * hb)
    lo, hi = min(ps), max(ps)
    w = max(wof(lo, hi), wof(la, ha), wof(lb, hb))
    return mk(ext(a, w) * ext(b, w), lo, hi)


def op_and(a, b):
    if type(a) is int and type(b) is int:
        return a & b
    (la, ha), (lb, hb) = rng(a), rng(b)
    w = max(wof(la, ha), wof(lb, hb))
    if la >= 0 and lb >= 0:
        lo, hi = 0, min(ha, hb)
    elif la >= 0:
        lo, hi = 0, ha
    elif lb >= 0:
        lo, hi = 0, hb
    else:
        lo, hi = -(1 << (w - 1)), max(ha, hb, 0)
    return mk(ext(a, w) & ext(b, w), lo, hi)


def _orrange(a, b):
    (la, ha), (lb, hb) = rng(a), rng(b)
    w = max(wof(la, ha), wof(lb, hb))
    if la >= 0 and lb >= 0:
        return w, 0, (1 << max(ha.bit_length(), hb.bit_length())) - 1
    return w, -(1 << (w - 1)), (1 << (w - 1)) - 1


def op_or(a, b):
    if type(a) is int and type(b) is int:
        return a | b
    w, lo, hi = _orrange(a, b)
    if lo == 0:
        lo = max(rng(a)[0], rng(b)[0])
    return mk(ext(a, w) | ext(b, w), lo, hi)


def op_xor(a, b):
    if type(a) is int and type(b) is int:
        return a ^ b
    w, lo, hi = _orrange(a, b)
    return mk(ext(a, w) ^ ext(b, w), lo, hi)


MAXSHIFT = 1024


def op_shl(a, b):
    (la, ha), (lb, hb) = rng(a), rng(b)
    if type(b) is int:
        lo, hi = la << b, ha << b
        w = wof(lo, hi)
        return mk(ext(a, w) << b, lo, hi)
    if hb > MAXSHIFT:
        raise Concretise
    lo, hi = min(la << lb, la << hb), max(ha << lb, ha << hb)
    w = max(wof(lo, hi), wof(lb, hb))
    r = mk(ext(a, w) << ext(b, w), lo, hi)
    return _tag(r, "p", b) if type(a) is int and a == 1 else r


def op_shr(a, b):
    if type(a) is int and type(b) is int:
        return a >> b
    (la, ha), (lb, hb) = rng(a), rng(b)
    if type(b) is int:
        lo, hi = la >> b, ha >> b
        w = wof(la, ha)
        if b >= w:
            b = w - 1
        return mk(ext(a, w) >> b, lo, hi)
    lo, hi = min(la >> lb, la >> min(hb, 1 << 16)), max(ha >> lb, ha >> min(hb, 1 << 16))
    w = max(wof(la, ha), wof(lb, hb))
    return mk(ext(a, w) >> ext(b, w), lo, hi)


def op_neg(a):
    return op_sub(0, a)


def op_inv(a):
    if type(a) is int:
        return ~a
    return mk(~a.t, ~a.hi, ~a.lo)


class Concretise(Exception):
    pass


def b_eq(a, b):
    """Raw equality -> bool or z3 Bool."""
    if type(a) is int and type(b) is int:
        return a == b
    (la, ha), (lb, hb) = rng(a), rng(b)
    if ha < lb or hb < la:
        return False
    w = max(wof(la, ha), wof(lb, hb))
    return zb(ext(a, w) == ext(b, w))


def b_lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    (la, ha), (lb, hb) = rng(a), rng(b)
    if ha < lb:
        return True
    if la >= hb:
        return False
    w = max(wof(la, ha), wof(lb, hb))
    return zb(ext(a, w) < ext(b, w))


def b_le(a, b):
    r = b_lt(b, a)
    return b_not(r)


def zb(c):
    """Simplify a z3 Bool to bool when it is constant."""
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def b_not(c):
    if type(c) is bool:
        return not c
    return z3.simplify(z3.Not(c))


def b_and(*cs):
    out = []
    for c in cs:
        if type(c) is bool:
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*cs):
    out = []
    for c in cs:
        if type(c) is bool:
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def r_ite(c, a, b):
    """If-then-else on raw integers."""
    if type(c) is bool:
        return a if c else b
    (la, ha), (lb, hb) = rng(a), rng(b)
    lo, hi = min(la, lb), max(ha, hb)
    w = wof(lo, hi)
    return mk(z3.If(c, ext(a, w), ext(b, w)), lo, hi)


def r_from_els(els, signed):
    """Raw integer from byte elements, most significant first."""
    if not els:
        return 0
    if all(type(e) is int for e in els):
        return int.from_bytes(bytes(els), "big", signed=signed)
    parts = [z3.BitVecVal(e, 8) if type(e) is int else e for e in els]
    t = z3.Concat(*parts) if len(parts) > 1 else parts[0]
    n = 8 * len(parts)
    if signed:
        return mk(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mk(z3.ZeroExt(1, t), 0, (1 << n) - 1)


def r_to_els(v, size):
    """Byte elements (most significant first) of a raw integer that fits ``size`` bytes."""
    if type(v) is int:
        return list((v & ((1 << (8 * size)) - 1)).to_bytes(size, "big"))
    if size == 0:
        return []
    t = ext(v, 8 * size)
    return [simp_el(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(size - 1, -1, -1)]


# --------------------------------------------------------------------------------------------------------------
# path engine
# --------------------------------------------------------------------------------------------------------------


class Stats:
    def __init__(self):
        self.paths = 0
        self.pruned = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.asserts = 0
        self.assert_queries = 0
        self.unknown = 0
        self.capped = 0
        self.gaps = 0
        self.validated = 0
        self.mismatch = 0
        self.concretised = 0
        self.functions = set()
        self.gap_notes = set()

    def merge(self, o):
        for k, v in o.__dict__.items():
            if isinstance(v, set):
                getattr(self, k).update(v)
            else:
                setattr(self, k, getattr(self, k) + v)


class Ctx:
    """State of one symbolic run."""

    def __init__(self, prefix, stats, limits):
        self.prefix = prefix
        self.trace = []  # [choice, alternatives-left]
        self.stats = stats
        self.limits = limits
        self.solver = z3.Solver()
        self.solver.set("timeout", limits.get("solver_ms", 20000))
        self.inputs = {}  # name -> descriptor
        self.choices = {}
        self.observed = []
        self.overlay = {}
        self.keep = []
        self.model = None
        self.incomplete = False
        self.constraints = []
        self.placeholders = {}

    # -- solver ------------------------------------------------------------------------------------------------
    def _check(self, *extra):
        self.stats.queries += 1
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def feasible(self, c):
        """Is ``c`` (z3 Bool) satisfiable with the path? Keeps a model when it is."""
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if z3.is_true(v):
                return True
        r = self._check(c)
        if r == z3.sat:
            m = self.solver.model()
            return m
        return False if r == z3.unsat else None

    def add(self, c):
        if c is True:
            return
        self.solver.add(c)
        self.constraints.append(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort
        f = self.feasible(c)
        if f is False:
            raise PathAbort
        if f is None:
            self.incomplete = True
        self.add(c)
        if isinstance(f, z3.ModelRef):
            self.model = f

    def branch(self, c):
        """Fork on a condition; returns a native bool."""
        if type(c) is bool:
            return c
        c = zb(c)
        if type(c) is bool:
            return c
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if type(d) is not bool:
                raise Nondet
            self.trace.append((d, None))
            self.solver.add(c if d else z3.Not(c))
            self.constraints.append(c if d else z3.Not(c))
            self.model = None
            return d
        ft = self.feasible(c)
        nc = z3.Not(c)
        mt = self.model if ft is True else ft
        if ft is True:
            ff = None
            r = self._check(nc)
            ff = self.solver.model() if r == z3.sat else (False if r == z3.unsat else None)
        else:
            ff = self.feasible(nc)
            if ff is True:
                ff = self.model
        if ft is None or ff is None:
            self.incomplete = True
        t_ok = ft is not False
        f_ok = ff is not False
        if not t_ok and not f_ok:
            raise PathAbort
        d = t_ok
        other = t_ok and f_ok
        self.trace.append((d, [False] if other else None))
        if other:
            self.stats.forks += 1
        if other or ft is None or ff is None:
            self.solver.add(c if d else nc)
            self.constraints.append(c if d else nc)
        m = mt if d else ff
        self.model = m if isinstance(m, z3.ModelRef) else None
        return d

    def choose(self, n):
        """Fork over 0..n-1 without the solver."""
        if n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if type(d) is bool or d >= n:
                raise Nondet
            self.trace.append((d, None))
            return d
        self.trace.append((0, list(range(1, n))))
        self.stats.forks += n - 1
        return 0

    def split(self, v):
        """Case split of a raw integer into its feasible values (exhaustive up to a cap)."""
        if type(v) is int:
            return v
        cap = self.limits.get("split_cap", 300)
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if type(d) is not tuple:
                raise Nondet
            self.trace.append((d, None))
            val = d[1]
            self.solver.add(b_eq(v, val))
            self.constraints.append(b_eq(v, val))
            self.model = None
            return val
        vals = []
        self.solver.push()
        while len(vals) < cap:
            r = self._check()
            if r != z3.sat:
                if r == z3.unknown:
                    self.incomplete = True
                break
            val = self.solver.model().eval(v.t, model_completion=True).as_signed_long()
            vals.append(val)
            self.solver.add(z3.Not(b_eq(v, val)) if b_eq(v, val) is not True else z3.BoolVal(False))
        else:
            self.incomplete = True
            self.stats.capped += 1
        self.solver.pop()
        if not vals:
            raise PathAbort
        vals.sort()
        if len(vals) > 1:
            self.stats.concretised += 1
            self.stats.forks += len(vals) - 1
        self.trace.append((("v", vals[0]), [("v", x) for x in vals[1:]] or None))
        if len(vals) > 1:
            c = b_eq(v, vals[0])
            self.solver.add(c)
            self.constraints.append(c)
        self.model = None
        return vals[0]

    def get_model(self):
        if self.model is None:
            if self._check() != z3.sat:
                return None
            self.model = self.solver.model()
        return self.model

    # -- inputs ------------------------------------------------------------------------------------------------
    def input_values(self, model):
        out = dict(self.choices)
        for name, (kind, term) in self.inputs.items():
            if kind == "int":
                out[name] = model.eval(term.t, model_completion=True).as_signed_long() if isinstance(term, IT) else term
            elif kind == "bytes":
                out[name] = [
                    e if type(e) is int else model.eval(e, model_completion=True).as_long() for e in term
                ]
            elif kind == "str":
                out[name] = [
                    e if type(e) is int else model.eval(e, model_completion=True).as_long() for e in term
                ]
        return out

    def check(self, c, label, detail=None):
        """Assert a property: the solver must refute ``path and not c``."""
        self.stats.asserts += 1
        if c is True:
            return
        if c is not False:
            c = zb(c)
        if c is True:
            return
        if c is False:
            m = self.get_model()
            if m is None:
                raise PathAbort
            raise CheckFailed(label, self.input_values(m), detail)
        self.stats.assert_queries += 1
        nc = z3.Not(c)
        f = self.feasible(nc)
        if f is None:
            self.incomplete = True
            return
        if f is not False:
            m = self.model if f is True else f
            raise CheckFailed(label, self.input_values(m), detail)


CUR: Ctx | None = None


def cur() -> Ctx:
    return CUR


def set_cur(c):
    global CUR
    CUR = c
