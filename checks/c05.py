"""C05: scalar codecs implement the standard encodings under the current endianness."""

from __future__ import annotations

from spec import menu as M
from spec.model import FLOATS, INTS, Arr, Cfg, Char, Cur, Float, Int, Leb, Ptr, RefEOF, RefError, Wchar, anon_names
from spec.types import ALIASES, SCALARS
from vse.canon import ceq, elseq
from vse.core import b_and, b_eq, b_le, b_not, b_or, byte_it, op_and, op_or, op_shl, op_sub, r_ite, r_to_els
from vse.run import Job

from .common import canonical, keys_of, straddles

WITNESSES = ["decoded", "encoded", "leb", "switched", "refused"]
BOUNDS = (
    "every built-in scalar name and alias x endianness <, >, !, =, @: decoding of every byte string of the type's width (LEB128: of up to 10 bytes, thorough 19), "
    "encoding of every integer of the type's range (LEB128: up to 70 bits, thorough 130), every character pair of the BMP and every surrogate pair, every float bit pattern; arrays of 1 to 3; "
    "endianness switches e1 -> e2 -> e1 over <, >, !, =, @ around reads and writes of every fixed-size fragment of spec/menu.py and of variable-length ones, interpreted and compiled, packed and aligned"
)
ASSUMPTIONS = ["NaN payloads are compared as NaN only; the byte orders = and @ are those of the host (little-endian)"]


def model(name):
    base = ALIASES.get(name, name)
    if base in INTS:
        return Int(base)
    if base in FLOATS:
        return Float(base)
    return {"char": M.CH, "wchar": M.WC, "uleb128": M.UL, "ileb128": M.SL, "void": M.VOID}[base]


def ref(env, ty, els, cfg):
    cur = Cur(env, els)
    try:
        return ty.read(cur, cfg, {}), cur
    except (RefError, RefEOF):
        return None, cur


def decode(env, names, endian, form):
    """bytes -> value through every entry point."""
    name = env.choice("type", names)
    env.tag = name
    ty = model(name)
    cfg = Cfg(endian)
    cs = env.lib.cstruct(endian=endian)
    n = {"one": None, "x1": 1, "x2": 2, "x3": 3, "x40": 40, "x300": 300}.get(form)
    rty = ty if n is None else Arr(ty, n)
    t = cs.resolve(name)
    if n is not None:
        t = t[n]
    size = rty.size(cfg)
    if size is None:
        size = (10 if env.limit == "quick" else 19) if n is None else n + 2
    if n is not None and n > 3:
        w = ty.size(cfg) or 1
        hot = M.PROBES if isinstance(ty, (Int, Char)) else (33,)
        data = env.mixed("data", M.fill(size, [k * w + j for k in hot for j in range(w)]))
    else:
        data = env.bytes("data", size)
    els = env.els(data)
    want, cur = ref(env, rty, els, cfg)
    how = env.choice("how", ["call", "stream", "reads", "read"]) if form == "one" else "call"
    stream = env.stream(data)
    r = env.call({"call": lambda: t(data), "stream": lambda: t(stream), "reads": lambda: t.reads(data), "read": lambda: cs.read(name, stream)}[how])
    if want is None:
        env.reach("refused")
        env.check(not r.ok, "a value was decoded from an invalid encoding", lambda: f"{name} {bytes(data).hex()}: {r!r}")
        return
    env.check(r.ok, "decoding raised", lambda: f"{name} {bytes(data).hex()}: {r!r}")
    env.reach("decoded")
    env.observe("value", r.value)
    env.check(ceq(env.canon(r.value), want), "decoded value is wrong", lambda: f"{name} {endian} {bytes(data).hex()} -> {r.value!r}")
    if how in ("stream", "read"):
        env.check(stream.tell() == cur.pos, "bytes consumed", lambda: f"{name}: {stream.tell()} != {cur.pos}")
    # encoding is the exact inverse (of canonical encodings)
    for pos, f in cur.floats:
        from .common import not_nan

        env.assume(not_nan(els[pos : pos + f.n], f, cfg.big))
    leb, cur.leb, cur.floats, cur.big = cur.leb, cur.leb, [], cfg.big
    canonical(env, cur, els)
    out = env.call(t.dumps, r.value)
    env.check(out.ok, "encoding a decoded value raised", lambda: f"{name} {bytes(data).hex()}: {out!r}")
    env.reach("encoded")
    env.check(elseq(env.els(out.value), els[: cur.pos], 8), "encoding is not the inverse of decoding", lambda: f"{name} {endian} {bytes(data).hex()} -> {r.value!r} -> {bytes(out.value).hex()}")
    del leb


def encode(env, names, endian):
    """Every integer of the range -> bytes, compared with the two's complement of the width."""
    name = env.choice("type", names)
    env.tag = name
    ty = model(name)
    cs = env.lib.cstruct(endian=endian)
    cfg = Cfg(endian)
    x = env.int("x", *ty.lim())
    t = cs.resolve(name)
    r = env.call(t.dumps, x)
    env.check(r.ok, "encoding a number of the type's range raised", lambda: f"{name} {x}: {r!r}")
    want = r_to_els(env.raw(x), ty.n)
    want = want if cfg.big else want[::-1]
    env.check(elseq(env.els(r.value), want, 8), "encoded bytes are wrong", lambda: f"{name} {endian} {x} -> {bytes(r.value).hex()}")
    s = env.stream(b"")
    env.call(t.write, s, x)
    env.check(elseq(env.els(s.getvalue()), want, 8), "written bytes are wrong", lambda: f"{name} {endian} {x}")
    env.observe("dump", r.value)
    env.reach("encoded")


def leb(env, signed, bits, hi):
    """LEB128 encoding is the minimal one."""
    cs = env.lib.cstruct()
    t = cs.resolve("ileb128" if signed else "uleb128")
    lo, top = (0 if bits == 0 else 1 << bits), (1 << hi) - 1
    x = env.int("x", lo, top)
    if signed and env.choice("sign", [1, -1]) < 0:
        x = -x - 1
    r = env.call(t.dumps, x)
    env.check(r.ok, "encoding raised", lambda: f"{x}: {r!r}")
    els = [byte_it(e) for e in env.els(r.value)]
    env.observe("dump", r.value)
    # fixed number of bytes on this path: continuation bits, value, minimality
    env.check(b_and(*[b_le(0x80, e) for e in els[:-1]], b_not(b_le(0x80, els[-1]))), "continuation bits", lambda: bytes(r.value).hex())
    v = 0
    for i, e in enumerate(els):
        v = op_or(v, op_shl(op_and(e, 0x7F), 7 * i))
    if signed:
        neg = b_not(b_eq(op_and(els[-1], 0x40), 0))
        v = r_ite(neg, op_sub(v, 1 << 7 * len(els)), v)
    env.check(b_eq(v, env.raw(x)), "the bytes encode another number", lambda: f"{x} -> {bytes(r.value).hex()}")
    if len(els) > 1:
        pad = b_eq(els[-1], 0)
        if signed:
            sign = b_not(b_eq(op_and(els[-2], 0x40), 0))
            pad = b_or(b_and(pad, b_not(sign)), b_and(b_eq(els[-1], 0x7F), sign))
        env.check(b_not(pad), "the encoding is not minimal", lambda: f"{x} -> {bytes(r.value).hex()}")
    back = env.call(t, r.value)
    env.check(back.ok and b_eq(env.raw(back.value), env.raw(x)), "decoding is not the inverse", lambda: f"{x} -> {bytes(r.value).hex()} -> {back!r}")
    env.reach("leb")


def leb_negative(env):
    """An unsigned LEB128 has no negative values."""
    cs = env.lib.cstruct()
    x = env.int("x", -1000, -1)
    r = env.call(cs.uleb128.dumps, x)
    env.check(not r.ok, "a negative number was encoded as unsigned LEB128", lambda: f"{x}: {r!r}")


def text(env, endian, n):
    """Strings -> UTF-16."""
    cs = env.lib.cstruct(endian=endian)
    big = endian in (">", "!")
    units = []
    if env.choice("astral", [False, True]):
        data = env.bytes("data", 4)
        b = env.els(data)
        u = [Int("uint16").read(Cur(env, b[i : i + 2]), Cfg(endian), {})[1] for i in (0, 2)]
        env.assume(b_and(b_le(0xD800, u[0]), b_le(u[0], 0xDBFF), b_le(0xDC00, u[1]), b_le(u[1], 0xDFFF)))
        r = env.call(cs.wchar[2], data)
        env.check(r.ok and len(r.value) == 1, "a surrogate pair is one character", lambda: repr(r))
        s, want = r.value, b
    else:
        s = env.wtext("s", n)
        for c in env.codes(s):
            e = r_to_els(env.raw(env.mkint_code(c)), 3)[1:]
            units.append(e if big else e[::-1])
        want = [e for u in units for e in u]
    for t in (cs.wchar[n], cs.wchar):
        r = env.call(t.dumps, s)
        env.check(r.ok, "encoding a string raised", lambda: repr(r))
        env.check(elseq(env.els(r.value), want, 8), "encoded characters are wrong", lambda: f"{s!r} -> {bytes(r.value).hex()}")
    env.reach("encoded")


def switch(env, prefix, options, first, second, align, compiled):
    """Endianness is looked up at use: every order of reads and writes around a switch."""
    keys = keys_of(prefix, env.choice("fields", options))
    env.tag = "+".join(keys)
    st = M.build(keys)
    cs = env.load(st.source(), endian=first, align=align, compiled=compiled)
    extra = 2 if any(k in M.DYN_ALL for k in keys) else 0
    for step, e in enumerate((first, second, first)):
        if step:
            cs.endian = e
        cfg = Cfg(e, align)
        if straddles(st, cfg):
            env.skip("bit-fields straddle their unit")
        n = size_for(st, cfg) + extra
        # the first round only warms whatever is cached
        data = env.bytes(f"data{step}", n) if step == 1 else bytes((7 * i + step) & 0x3F for i in range(n))
        els = env.els(data)
        cur = Cur(env, els)
        try:
            want = st.read(cur, cfg)
        except (RefError, RefEOF):
            if step != 1:
                continue
            return
        stream = env.stream(data)
        r = env.call(cs.T, stream)
        env.check(r.ok, "parsing raised", lambda: f"{e}: {bytes(data).hex()}: {r!r}")
        env.check(ceq(anon_names(env.canon(r.value)), anon_names(want)), "value parsed under the current endianness", lambda: f"endian {first} then {e}: {bytes(data).hex()} -> {r.value!r}")
        for pos, f in cur.floats:
            from .common import not_nan

            env.assume(not_nan(els[pos : pos + f.n], f, cfg.big))
        leb, cur.floats = cur.leb, []
        canonical(env, cur, els)
        out = env.call(r.value.dumps)
        env.check(out.ok, "dumping raised", lambda: repr(out))
        got = env.els(out.value)
        env.check(len(got) == stream.tell(), "dump length")
        w = [0 if i >= len(els) else els[i] & cur.mask.get(i, 0) if cur.mask.get(i, 0) != 0xFF else els[i] for i in range(len(got))]
        for pos, f in cur.float_ends:  # see C02's finding about terminators
            env.assume(b_not(b_eq(byte_it(els[pos] if cfg.big else els[pos + f.n - 1]), 0x80)))
        env.check(elseq(got, w, 8), "bytes dumped under the current endianness", lambda: f"endian {first} then {e}: {bytes(data).hex()} -> {bytes(out.value).hex()}")
        if step == 1:
            env.observe("v", r.value)
            env.observe("d", out.value)
        # write a value made in another byte order
        if step == 1 and not has_void(keys) and not set(keys) & {"un", "up", "au", "nu", "unx2", "ut"}:
            cs.endian = first
            back = env.call(cs.T, bytes((5 * i + 1) & 0x3F for i in range(n)))
            cs.endian = e
            if back.ok:
                o2 = env.call(back.value.dumps)
                again = env.call(cs.T, o2.value) if o2.ok else o2
                env.check(again.ok and env.branch(env.same(again.value, back.value)), "value written after a switch", lambda: f"{back!r} {o2!r} {again!r}")
        env.reach("switched")
        del leb


def has_void(keys):
    return any(k.startswith("void") for k in keys)


def size_for(st, cfg):
    from .common import min_len

    return min_len(st, cfg)


def jobs(tier, lib):
    quick = tier == "quick"
    names = [*SCALARS, *ALIASES]
    for e in "<>!=@":
        for i in range(0, len(names), 8):
            yield Job(decode, {"names": names[i : i + 8], "endian": e, "form": "one"}, cost=10)
        for form in ("x1", "x2", "x3", "x40", "x300"):
            some = [n for n in SCALARS if form not in ("x40", "x300") or not isinstance(model(n), Leb) and n != "void"]
            for i in range(0, len(some), 6):
                yield Job(decode, {"names": some[i : i + 6], "endian": e, "form": form}, cost=10)
        ints = [n for n in names if isinstance(model(n), Int)]
        for i in range(0, len(ints), 10):
            yield Job(encode, {"names": ints[i : i + 10], "endian": e}, cost=10)
        for n in (1, 2, 3):
            yield Job(text, {"endian": e, "n": n}, cost=10)
    cuts = list(range(0, 70 if quick else 133, 7))
    for signed in (False, True):
        for c in cuts:
            yield Job(leb, {"signed": signed, "bits": c, "hi": c + 7}, cost=10)
    yield Job(leb_negative, {})
    ks = [k for k in M.FIXED_ALL + M.BITS_ALL + M.SBITS + M.DYN_ALL if k not in ("g8x2", "g8z", "e8x2x2", "pz")]
    pairs = [("<", ">"), (">", "<"), ("!", "<"), ("<", "!"), ("=", ">"), (">", "@")]
    for a, b in pairs:
        for c in (False, True):
            for al in (False, True):
                if quick and al == (a == "<"):
                    continue
                for pre in ("", "u16"):
                    if quick and pre and (b in "!@" or a in "!=" or c == (b == "@")):
                        continue
                    for i in range(0, len(ks), 7):
                        yield Job(switch, {"prefix": pre, "options": ks[i : i + 7], "first": a, "second": b, "align": al, "compiled": c}, cost=20)


_ = (Char, Leb, Ptr, Wchar)
