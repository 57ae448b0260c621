"""Shared by the layout checks: definition spaces and input lengths."""

from __future__ import annotations

from vse.core import b_and, b_eq, b_not, b_or, byte_it, op_and
from spec import menu as M
from spec.model import EOF, NULL, Arr, Cfg, Cur, Enum, Fld, Float, Leb, RefEOF, RefError, Struct, Wchar
from vse.run import Job


class _Zero:
    """Decides branches on concrete bytes."""

    @staticmethod
    def branch(c):
        return bool(c)


def min_len(st, cfg):
    """Bytes the definition needs on all-zero input (to-end-of-stream arrays empty)."""
    cur = Cur(_Zero, [0] * 2000)
    cur.no_eof = True
    st.read(cur, cfg)
    return cur.pos


def has(ty, pred):
    if pred(ty):
        return True
    if isinstance(ty, Struct):
        return any(has(f.ty, pred) for f in ty.fields)
    if isinstance(ty, Arr):
        return has(ty.elem, pred)
    return False


def is_eof(ty):
    return has(ty, lambda t: isinstance(t, Arr) and t.n == EOF)


def is_dyn(ty, cfg):
    return ty.size(cfg) is None


def keys_of(*parts):
    return [k for p in parts for k in p.split("+") if k]


def usable(keys):
    """A to-end-of-stream array must come last; it leaves no bytes for what follows."""
    return not any(k in M.EOF_KEYS for k in keys[:-1])


def dyn_extra(keys, extra):
    """Spare input bytes; ``extra`` is the check's default, larger in the thorough tier."""
    m = 0
    for k in keys:
        if k in M.DYN_ALL or k in M.EOF_KEYS:
            m = max(m, min(M.EXTRA.get(k, 99), extra) if extra <= 3 else M.EXTRA.get(k, 0) + extra)
    return m


def straddles(st, cfg):
    try:
        st.layout(cfg)
    except RefError:
        return True
    return False


def canonical(env, cur, els):
    """Assume what the properties call canonical encodings: no NaN, minimal LEB128."""
    for pos, ty in cur.floats:
        env.assume(not_nan(els[pos : pos + ty.n], ty, cur.big))
    for a, b, signed in cur.leb:
        if b - a < 2:
            continue
        last, prev = byte_it(els[b - 1]), byte_it(els[b - 2])
        pad = b_eq(last, 0)
        if signed:
            top = b_eq(op_and(prev, 0x40), 0)
            pad = b_or(b_and(pad, top), b_and(b_eq(last, 0x7F), b_not(top)))
        env.assume(b_not(pad))


def not_nan(els, ty, big):
    """Exponent not all ones, or mantissa zero."""
    if not big:
        els = els[::-1]
    mant = {2: 10, 4: 23, 8: 52}[ty.n]
    from vse.core import r_from_els
    from vse.core import op_shr

    v = r_from_els(els, False)
    expo = op_and(op_shr(v, mant), (1 << (8 * ty.n - 1 - mant)) - 1)
    return b_or(b_not(b_eq(expo, (1 << (8 * ty.n - 1 - mant)) - 1)), b_eq(op_and(v, (1 << mant) - 1), 0))


CONFIGS = [(e, al, c) for e in "<>" for al in (False, True) for c in (False, True)]


def definition_jobs(fn, tier, configs=CONFIGS, singles=None, firsts=None, seconds=None, extra=None, chunk=20, budget=None, triples=True, pair_configs=None, pair_extra=None, large=False, spellings=False):
    """One job per configuration and group of definitions: every fragment alone, all pairs of core fragments, and (thorough) triples."""
    if singles is None:
        singles = M.FIXED_ALL + M.BITS_ALL + M.SBITS + M.DYN_ALL + M.EOF_ALL
        if tier == "quick":
            singles = [k for k in singles if k not in M.HEAVY]
    if large:
        yield from large_jobs(fn, tier)
    core = M.CORE + M.CORE_BITS + M.CORE_DYN
    if firsts is None:
        firsts = [k for k in core if tier != "quick" or k not in M.HEAVY_FIRST]
    seconds = core + ["u8e", "che", "n1e"] if seconds is None else seconds
    extra = extra if extra is not None else (3 if tier == "quick" else 6)
    pair_extra = pair_extra if pair_extra is not None else min(extra, 2) if tier == "quick" else extra
    for e, al, c in configs:
        p = {"endian": e, "align": al, "compiled": c, "extra": extra}
        q = {**p, "extra": pair_extra}
        for i in range(0, len(singles), 6):
            yield Job(fn, {"prefix": "", "options": singles[i : i + 6], **p}, budget=budget, cost=30)
        # with a leading byte every offset and alignment shifts
        for i in range(0, len(singles), 6):
            yield Job(fn, {"prefix": "u8", "options": [s for s in singles[i : i + 6]], **p}, budget=budget, cost=30)
        for f in firsts if pair_configs is None or (e, al, c) in pair_configs else ():
            for i in range(0, len(seconds), chunk):
                yield Job(fn, {"prefix": f, "options": seconds[i : i + chunk], **q}, budget=budget, cost=10)
    if spellings:
        # byte orders by another name: native, native without padding, network
        some = [k for k in core if k not in ("wcz", "n1z")]
        for k, e in enumerate("=@!"):
            for m, (al, c) in enumerate(((False, True), (True, False), (True, True), (False, False))):
                if tier == "quick" and m > 1 or not any(x[2] == c for x in configs):
                    continue
                for j, prefix in enumerate(("u8", "u16+b3")):
                    if tier != "quick" or (j + k + m) % 2:
                        for i in range(0, len(some), 9):
                            yield Job(fn, {"prefix": prefix, "options": some[i : i + 9], "endian": e, "align": al, "compiled": c, "extra": 2}, budget=budget, cost=10)
    if tier == "thorough" and triples:
        for e, al, c in configs:
            p = {"endian": e, "align": al, "compiled": c, "extra": extra}
            for f in M.TRI:
                for g in M.TRI:
                    yield Job(fn, {"prefix": f"{f}+{g}", "options": M.TRI, **p}, budget=budget)


def pick(env, prefix, options, endian, align, compiled, extra, compile_=None):
    """-> (reference structure, config, cstruct with it loaded, input bytes) for one definition of the job."""
    opt = env.choice("fields", options)
    keys = keys_of(prefix, opt)
    env.tag = "+".join(keys)
    st = M.build(keys)
    cfg = Cfg(endian, align, compiled=compiled)
    if straddles(st, cfg):
        env.skip("bit-fields straddle their unit")
    n = room(keys, st, cfg, extra)
    return keys, st, cfg, n


def room(keys, st, cfg, extra):
    """Number of input bytes for a definition."""
    if keys[0] in M.LARGE:
        return len(M.LARGE[keys[0]][1](st, cfg))
    return min_len(st, cfg) + dyn_extra(keys, extra)


def source(env, keys, st, cfg, n, name="data"):
    """Input bytes: all of them symbolic, but for large definitions."""
    if keys[0] in M.LARGE:
        return env.mixed(name, M.LARGE[keys[0]][1](st, cfg)[:n])
    return env.bytes(name, n)


LARGE_CONFIGS = [("<", False, True), (">", True, False), (">", False, True), ("<", True, False)]


def large_jobs(fn, tier, params=lambda e, al, c: {"endian": e, "align": al, "compiled": c, "extra": 0}, configs=None, keys=None, chunk=6):
    """The large definitions, each one alone."""
    keys = list(M.LARGE) if keys is None else keys
    for e, al, c in configs if configs is not None else LARGE_CONFIGS[:2] if tier == "quick" else CONFIGS:
        for i in range(0, len(keys), chunk):
            yield Job(fn, {"prefix": "", "options": keys[i : i + chunk], **params(e, al, c)}, cost=40)


__all__ = [n for n in dir() if not n.startswith("__")]
_ = (EOF, NULL, Enum, Fld, Float, Leb, RefEOF, RefError, Wchar)
