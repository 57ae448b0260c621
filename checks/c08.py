"""C08: truncated or failing input never fabricates data."""

from __future__ import annotations

import io

from spec import menu as M
from spec.model import EOF, Arr, Cfg, Cur, Fld, Ptr, RefEOF, RefError, Skip, Struct, anon_names
from spec.types import SCALARS
from vse.canon import ceq
from vse.run import Job

from .common import CONFIGS, has, keys_of, min_len, room, source, straddles, usable

WITNESSES = ["cut", "fault", "later", "padding cut", "union", "scalar"]
BOUNDS = (
    "every fragment of spec/menu.py alone and between two fields, pairs of core fragments, unions, arrays of them and every scalar on its own, x both byte orders, packed and aligned, both readers; "
    "definitions with a part of 16 to 256 bytes (symbolic at PROBES); input bytes symbolic (minimal length plus 2, thorough 5, for variable-length definitions); every truncation of the input; a stream whose j-th read raises OSError, raises EOFError, returns nothing or one byte too few, "
    "for every j; after each failure the same types parse the complete input again"
)
ASSUMPTIONS = [
    "to-end-of-stream arrays are exempt from their first element on, as the property states",
    "an input that lacks only padding may either be refused or give the complete value",
    "a value returned from a stream that delivered too little is compared with the value of the complete input",
]


class Boom(OSError):
    pass


class Stream:
    """A stream whose ``at``-th read fails in the given way."""

    def __init__(self, env, data, at=None, mode=None):
        self.s, self.at, self.mode, self.n, self.hit = env.stream(data), at, mode, 0, False

    def read(self, n=-1):
        j, self.n = self.n, self.n + 1
        if j != self.at:
            return self.s.read(n)
        self.hit = True
        if self.mode == "raise":
            raise Boom("injected")
        if self.mode == "eof":
            raise EOFError("injected")
        back = self.s.tell()
        got = self.s.read(n)
        keep = 0 if self.mode == "empty" else max(0, len(got) - 1)
        self.hit = keep < len(got)
        self.s.seek(back + keep)
        return got[:keep]

    def seek(self, *a):
        return self.s.seek(*a)

    def tell(self):
        return self.s.tell()


def extent(cur):
    """End of the last byte that carries data."""
    return max([i + 1 for i, m in cur.mask.items() if m] or [0])


def reference(env, st, els, cfg):
    """-> (value, end of the data, end of the encoding), or None when the reference refuses the complete input.  The extent of a to-end-of-stream array does not count."""
    cur = Cur(env, els)
    try:
        want = st.read(cur, cfg, {})
    except (RefEOF, RefError):
        return None
    hi = extent(cur)
    last = st.fields[-1].ty if isinstance(st, Struct) and not st.union else None
    if isinstance(last, Arr) and last.n == EOF:
        c2 = Cur(env, els)
        Struct(None, st.fields[:-1]).read(c2, cfg, {})
        hi = extent(c2)
        want = None
    return want, hi, cur.pos


def cuts(env, parse, st, cfg, data, streams=True, some=None):
    """Every truncation, every fault, then the complete input."""
    els = env.els(data)
    ref = reference(env, st, els, cfg)
    if ref is None:
        r = env.call(parse, env.stream(data))
        env.check(not r.ok, "a value was parsed from too short an input", lambda: f"{bytes(data).hex()} -> {r!r}")
        return
    want, hi, _ = ref
    full = env.call(parse, env.stream(data))
    env.check(full.ok, "parsing the complete input raised", lambda: f"{bytes(data).hex()} -> {full!r}")
    env.observe("full", full.value)
    same = lambda v: True if want is None else ceq(anon_names(env.canon(v)), anon_names(want))  # noqa: E731
    env.check(same(full.value), "value of the complete input", lambda: f"{bytes(data).hex()} -> {full.value!r}")

    def again(why):
        r = env.call(parse, env.stream(data))
        env.check(r.ok and same(r.value), "a parse after a failed one differs", lambda: f"after {why}: {bytes(data).hex()} -> {r!r}")
        env.reach("later")

    for k in range(len(els)):
        if some is not None and k not in some and k not in (0, hi - 1, len(els) - 1):
            continue
        part = data[:k]
        forms = [("stream", lambda: parse(env.stream(part)))]
        if k in (0, 1, hi - 1):
            forms += [("bytes", lambda: parse(part)), ("bytearray", lambda: parse(env.bytearray(part)))]
        for form, f in forms:
            r = env.call(f)
            if k < hi:
                env.check(not r.ok, "a value was returned although data is missing", lambda: f"{form}: first {k} bytes of {bytes(data).hex()} -> {r!r}")
                env.check(isinstance(r.exc, EOFError), "premature end is not reported as EOFError", lambda: f"{form}: first {k} bytes of {bytes(data).hex()} -> {r!r}")
                env.reach("cut")
            elif r.ok:
                env.check(same(r.value), "the value of a shortened input differs", lambda: f"{form}: first {k} bytes of {bytes(data).hex()} -> {r!r}")
                env.reach("padding cut")
        if k in (0, hi - 1):
            again(f"{k} bytes")
    if not streams or want is None:
        again("cuts")
        return
    s = Stream(env, data)
    r = env.call(parse, s)
    env.check(r.ok, "parsing from a file-like object raised", lambda: repr(r))
    for j in range(s.n):
        if some is not None and j not in some and j not in (0, s.n - 1):
            continue
        for mode in ("raise", "eof", "empty", "short"):
            s = Stream(env, data, j, mode)
            r = env.call(parse, s)
            if mode in ("raise", "eof"):
                env.check(not r.ok, "an error of the stream was swallowed", lambda: f"read {j} {mode}: {bytes(data).hex()} -> {r!r}")
                if mode == "raise":
                    env.check(isinstance(r.exc, Boom), "an error of the stream was replaced", lambda: f"read {j}: {r!r}")
            elif r.ok:
                env.check(same(r.value), "a value was fabricated from a short read", lambda: f"read {j} {mode}: {bytes(data).hex()} -> {r!r}")
            else:
                env.check(s.hit and isinstance(r.exc, EOFError), "a short read is not reported as EOFError", lambda: f"read {j} {mode}: {r!r}")
            env.reach("fault")
    again("faults")


def structs(env, prefix, options, suffix, endian, align, compiled, extra, ptr="uint64"):
    keys = keys_of(prefix, env.choice("fields", options), suffix)
    env.tag = "+".join(keys)
    if not usable(keys):
        env.skip("unreachable field")
    st = M.build(keys)
    cfg = Cfg(endian, align, ptr)
    if straddles(st, cfg):
        env.skip("bit-fields straddle their unit")
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled, pointer=ptr)
    data = source(env, keys, st, cfg, room(keys, st, cfg, extra))
    cuts(env, cs.T, st, cfg, data, some=M.PROBES if keys[0] in M.LARGE else None)


def unions(env, prefix, options, endian, align, arr):
    """A union needs the bytes of every member."""
    keys = keys_of(prefix, env.choice("fields", options))
    env.tag = "+".join(keys)
    st = M.build(keys, union=True)
    cfg = Cfg(endian, align)
    cs = env.load(st.source(), endian=endian, align=align)
    t, ty = cs.T, st
    if arr:
        t, ty = cs.T[arr], Arr(st, arr)
    data = env.bytes("data", ty.size(cfg))
    cuts(env, t, ty, cfg, data)
    env.reach("union")


def inside(env, options, wrap, endian, align, compiled):
    """The truncated structure is a member or an element of another."""
    key = env.choice("fields", options)
    env.tag = key
    inner = M.build([key], "IN")
    cfg = Cfg(endian, align)
    if straddles(inner, cfg):
        env.skip("bit-fields straddle their unit")
    fields = {
        "member": [("a", M.U8), ("s", inner), ("z", M.U8)],
        "array": [("a", M.U8), ("s", Arr(inner, 2)), ("z", M.U8)],
        "count": [("a", M.U8), ("s", Arr(inner, ("(a & 1) + 1", _two)))],
        "union": [(None, Struct(None, [("s", inner), ("q", M.U32)], union=True)), ("z", M.U8)],
    }[wrap]
    st = Struct("T", fields)
    if wrap == "union" and inner.size(cfg) is None:
        env.skip("dynamic union")
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled)
    n = min_len(st, cfg) + (2 if inner.size(cfg) is None else inner.size(cfg) if wrap == "count" else 0)
    cuts(env, cs.T, st, cfg, env.bytes("data", n))


def _two(c):
    from vse.core import op_add, op_and

    return op_add(op_and(c["a"][1], 1), 1)


def dynamic_union(env, endian, align, compiled):
    """Parsing a dynamic union reads its bytes twice."""
    cs = env.load("union U { char s[]; uint16 n; }; struct T { uint8 a; U u; uint8 z; };", endian=endian, align=align, compiled=compiled)
    data = env.bytes("data", 6)
    full = env.call(cs.T, env.stream(data))
    s = Stream(env, data)
    env.call(cs.T, s)
    for j in range(s.n):
        for mode in ("raise", "eof", "empty", "short"):
            r = env.call(cs.T, Stream(env, data, j, mode))
            if r.ok:
                env.check(full.ok and env.branch(ceq(anon_names(env.canon(r.value)), anon_names(env.canon(full.value)))), "a value was fabricated from a short read", lambda: f"read {j} {mode}: {bytes(data).hex()} -> {r!r}, complete: {full!r}")
    r = env.call(cs.T, env.stream(data))
    env.check(r.ok == full.ok and (not r.ok or env.branch(ceq(anon_names(env.canon(r.value)), anon_names(env.canon(full.value))))), "a parse after a failed one differs")
    if full.ok:
        env.reach("union")


def scalar(env, names, endian, form):
    """Types on their own."""
    from .c05 import model

    name = env.choice("type", names)
    env.tag = name
    ty = model(name) if form != "ptr" else Ptr(model(name))
    cs = env.lib.cstruct(endian=endian)
    t = cs.resolve(name)
    if form == "ptr":
        t = cs._make_pointer(t)
    elif form == "null":
        ty, t = Arr(ty, "null"), t[None]
    elif form != "one":
        ty, t = Arr(ty, form), t[form]
    cfg = Cfg(endian)
    size = ty.size(cfg)
    cuts(env, t, ty, cfg, env.bytes("data", size if size is not None else 4))
    env.reach("scalar")


def jobs(tier, lib):
    quick = tier == "quick"
    singles = M.FIXED_ALL + M.BITS_ALL + M.SBITS + M.DYN_ALL + M.EOF_ALL
    if quick:
        singles = [k for k in singles if k not in M.HEAVY + ["e8x2x2", "g8z", "ule"]]
    singles = [k for k in singles if k != "pz"]
    core = M.CORE + M.CORE_BITS + M.CORE_DYN
    x = 2 if quick else 5
    for i, (e, al, c) in enumerate(CONFIGS):
        kw = {"endian": e, "align": al, "compiled": c}
        both = not quick or i in (1, 3, 4, 6)
        for k in range(0, len(singles), 8):
            yield Job(structs, {"prefix": "", "options": singles[k : k + 8], "suffix": "", "extra": x, **kw}, cost=20)
            if both and set(singles[k : k + 8]) - set(M.EOF_ALL):
                yield Job(structs, {"prefix": "u8", "options": [o for o in singles[k : k + 8] if o not in M.EOF_KEYS], "suffix": "u16", "extra": x, **kw}, cost=20)
        for f in core if both else ():
            if quick and (f in M.HEAVY_FIRST or (f in M.CORE_DYN and f not in ("dn", "chz"))):
                continue
            opts = core if not quick else [o for o in core if o not in ("n1z", "wcz", "ul", "nd", "dx")]
            for k in range(0, len(opts), 16):
                yield Job(structs, {"prefix": f, "options": opts[k : k + 16], "suffix": "", "extra": min(x, 1 if quick else 3), **kw}, cost=10)
        if both:
            for k in range(0, len(M.LARGE), 4):
                yield Job(structs, {"prefix": "", "options": [*M.LARGE][k : k + 4], "suffix": "", "extra": 0, **kw}, cost=40)
        ins = ["u8", "u16", "u24", "u8x3", "chx3", "b35", "w_h", "wc", "e16", "n1", "f32", "p", "un", "ul", "chz", "dn", "s_s"]
        for w in ("member", "array", "count", "union"):
            yield Job(inside, {"options": ins, "wrap": w, **kw}, cost=15)
        yield Job(dynamic_union, kw)
    for e in "<>":
        for al in (False, True):
            for f in M.CORE + ["nb", "n2", "up", "u16x2"]:
                yield Job(unions, {"prefix": f, "options": [k for k in M.CORE + ["nb", "n2", "n3", "nu", "e24"] if k != "au"], "endian": e, "align": al, "arr": None}, cost=10)
            yield Job(unions, {"prefix": "n2", "options": M.CORE, "endian": e, "align": al, "arr": 2}, cost=10)
        for form in ("one", "ptr", "null", 0, 1, 2, 3):
            names = [n for n in SCALARS if n != "void" or form != "null"]
            for k in range(0, len(names), 6):
                yield Job(scalar, {"names": names[k : k + 6], "endian": e, "form": form}, cost=10)


_ = (io, Fld, Skip, has)
