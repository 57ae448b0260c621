"""C19: hexdump is lossless, colour cosmetic, pack/unpack/swap are inverses."""

from __future__ import annotations

import contextlib
import sys

import z3

from spec import menu as M
from spec.model import Cfg
from vse.core import b_and, b_not, b_or, code_it, ext, op_add, op_and, op_shr, simp_el
from vse.run import Job
from vse.values import hex_digits, in_set, raw

from .common import min_len, straddles

WITNESSES = [
    "plain", "colour", "zero-length entry", "palette ends early", "palette longer than the data", "several lines", "offset", "wide offset",
    "pack", "negative", "without size", "unpack", "helper", "swap", "swap negative", "dump", "dump in colour", "printed", "bit-fields", "given data", "constructed", "default",
]  # fmt: skip
BOUNDS = (
    "hexdump: every content of 0 to 50 (thorough 100) bytes given as bytes, bytearray or memoryview, symbolic offset up to 2**32 and beyond, 4 prefixes, palettes of up to 3 (thorough 4) entries with symbolic lengths of 0 to 20 "
    "(2 to 3 entries: up to 4 bytes around every boundary of a line), as string, generator and printed; pack/unpack/helpers: every value that fits 1 to 17 bytes (and sizes that are no multiple of 8), "
    "8 spellings of the byte order, with and without a size, signed and unsigned; swap: every value of those sizes; dumpstruct: structures of every fragment of spec/menu.py alone and pairs of core fragments, "
    "parsed, given with data, constructed and default, with and without colour, both byte orders, packed and aligned, both readers"
)
ASSUMPTIONS = [
    "swapping a negative integer twice gives its two's complement pattern (swap returns unsigned values)",
    "values that do not fit the requested width are not packed; palette lengths are not negative; colour codes are terminal escape sequences",
    "a structure type dumped with more data than it needs may show all of that data",
    "values that are not of a type that represents a value (void) are not compared; white space within a listed value (line breaks in lists) is not compared",
]

ESC = 27
SET = [f"\033[1;3{i}m" for i in range(1, 8)]
PRINTABLE = "".join(chr(i) for i in range(0x20, 0x7F))


def uncoloured(codes):
    out, i = [], 0
    while i < len(codes):
        if type(codes[i]) is int and codes[i] == ESC and i + 1 < len(codes) and codes[i + 1] == ord("["):
            while not (type(codes[i]) is int and codes[i] == ord("m")):
                i += 1
        else:
            out.append(codes[i])
        i += 1
    return out


def cached(f):
    cache = {}

    def g(el):
        if type(el) is int:
            return f(el)
        k = el.get_id()
        if k not in cache:
            if len(cache) > 2000:
                cache.clear()
            cache[k] = el, f(el)
        return cache[k][1]

    return g


@cached
def digits(el):
    """The two hex digits of a byte element."""
    return hex_digits(raw_el(el), 2)


def raw_el(el):
    from vse.core import byte_it

    return el if type(el) is int else byte_it(el)


@cached
def column(el):
    """The character that stands for a byte."""
    if type(el) is int:
        return el if chr(el) in PRINTABLE else ord(".")
    wide = z3.ZeroExt(13, el)
    return simp_el(z3.If(z3.And(z3.UGE(el, 0x20), z3.ULE(el, 0x7E)), wide, z3.BitVecVal(ord("."), 21)))


def lines_of(codes):
    out = [[]]
    for c in codes:
        if type(c) is int and c == 10:
            out.append([])
        else:
            out[-1].append(c)
    return out


def check_dump(env, tokens, els, offset, prefix, detail):
    """A hex dump without colours shows exactly ``els``."""
    lines = lines_of(tokens) if tokens else []
    want = [els[i : i + 16] for i in range(0, len(els), 16)]
    env.check(len(lines) == len(want), "wrong number of lines", lambda: f"{detail}: {len(lines)} lines for {len(els)} bytes")
    cond = []
    for i, (line, chunk) in enumerate(zip(lines, want)):
        head = env.tokens(env.join([prefix, env.format(offset + 16 * i, "08x")]))
        cond.append(env.same_tokens(line[: len(head)], head))
        k = len(chunk)
        if len(line) < len(head) + 3 * k:
            env.fail("bytes are missing", lambda: f"{detail}: {line}")
            return
        tail = line[len(line) - k :]
        middle = [c for c in line[len(head) : len(line) - k] if not (type(c) is int and c == 32)]
        cond.append(env.same_tokens(middle, [d for e in chunk for d in digits(e)]))
        cond.append(env.same_tokens(tail, [column(e) for e in chunk]))
    env.check(env.both(*cond), "the hex dump does not list the bytes", lambda: detail)
    if len(want) > 1:
        env.reach("several lines")


@contextlib.contextmanager
def printed(env):
    """What the utilities print, in order."""
    parts = []

    class Out:
        def write(self, s):
            parts.append(s)

        def flush(self):
            pass

    def pr(*a, sep=" ", end="\n", file=None, flush=False):
        for i, x in enumerate(a):
            if i:
                parts.append(sep)
            parts.append(env.format(x, ""))
        parts.append(end)

    utils = env.lib.utils
    utils.print = pr
    try:
        with contextlib.redirect_stdout(Out()):
            yield parts
    finally:
        del utils.print


def hexdump(env, n, lo, hi, entries, offset, prefix, kind):
    els = [simp for simp in (i * 37 + 11 & 0xFF for i in range(n))]
    hot = env.els(env.bytes("data", max(0, min(hi, n) - lo)))
    els[lo : lo + len(hot)] = hot
    data = env.mkbytes(els)
    if kind == "bytearray":
        data = env.bytearray(data)
    elif kind == "memoryview":
        data = env.memoryview(data)
    f = env.lib.hexdump
    if offset == "small":
        offset = env.int("offset", 0, 0xFFFF0000)
        env.reach("offset")
    elif offset == "wide":
        offset = env.int("offset", 0xFFFFFF00, 1 << 40)
        env.reach("wide offset")
    kw = {"offset": offset, "prefix": prefix} if prefix is not None else {"offset": offset}
    prefix = prefix or ""
    env.note(f"hexdump({n} bytes, {kw}, {entries}, {kind})")
    r = env.call(f, data, output="string", **kw)
    env.check(r.ok, "hexdump failed", lambda: repr(r))
    if not r.ok:
        return
    plain = env.tokens(r.value)
    detail = f"{n} bytes"
    check_dump(env, plain, els, offset, prefix, detail)
    env.reach("plain")
    if not entries:
        g = env.call(lambda: list(f(data, output="generator", **kw)))
        env.check(g.ok and env.same_tokens(env.tokens(env.join([x for i, l in enumerate(g.value) for x in (["\n", l] if i else [l])])), plain), "the generated lines differ", lambda: repr(g))
        with printed(env) as out:
            p = env.call(f, data, **kw)
        got = env.tokens(env.join(out))
        if got and got[-1] == 10:
            got = got[:-1]
        env.check(p.ok and p.value is None and env.same_tokens(got, plain), "the printed dump differs", lambda: repr(p))
        env.reach("printed")
    for positional in (False, True):
        palette = [(env.int(f"p{i}", e, e + 20) if isinstance(e, int) else 0 if e == "zero" else env.choice(f"p{i}", e), SET[i % 3]) for i, e in enumerate(entries)] if not positional or not entries else []
        if positional and entries:
            continue
        r = env.call(f, data, palette, *([offset, prefix, "string"] if positional else []), **({} if positional else {"output": "string", **kw}))
        env.check(r.ok, "a palette makes the dump fail", lambda: f"{palette} {r!r}")
        if not r.ok:
            return
        env.check(env.same_tokens(uncoloured(env.tokens(r.value)), plain), "a palette changes the dump", lambda: f"{palette} {detail} {r!r}")
        env.check(palette == palette and len(palette) == len(entries), "the palette is changed", lambda: repr(palette))
        g = env.call(lambda: list(f(data, palette, output="generator", **kw)))
        env.check(
            g.ok and env.same_tokens(uncoloured(env.tokens(env.join([x for i, l in enumerate(g.value) for x in (["\n", l] if i else [l])]))), plain), "a palette changes the dump", lambda: f"{palette} {g!r}"
        )
        if entries:
            env.reach("colour")
            if any(env.branch(s == 0) for s, _ in palette):
                env.reach("zero-length entry")
            total = sum(s for s, _ in palette)
            env.reach("palette ends early" if env.branch(total < n) else "palette longer than the data")


ORDERS = {"little": "little", "big": "big", "network": "big", "<": "little", ">": "big", "!": "big", "@": sys.byteorder, "=": sys.byteorder}


def encode(env, v, n, order):
    """Two's complement of ``v`` in ``n`` bytes."""
    r = raw(v)
    out = [op_and(op_shr(r, 8 * i), 0xFF) for i in range(n)]
    out = env.mkbytes([env.els(one(env, x))[0] for x in out])
    return env.mkbytes(env.els(out)[::-1]) if order == "big" else out


def one(env, x):
    return env.mkbytes([x if type(x) is int else simp_el(z3.Extract(7, 0, ext(x, 9)))])


def pack(env, size, order, part):
    u = env.lib.utils
    n = (size + 7) // 8
    lo, hi = {"positive": (0, (1 << size) - 1), "negative": (-(1 << size - 1), -1)}[part]
    v = env.int("value", lo, hi)
    spell = [o for o, w in ORDERS.items() if w == order]
    e = env.choice("endian", [*spell, *(["default"] if order == "little" else [])])
    a = [] if e == "default" else [e]
    kw = {} if e == "default" else {"endian": e}
    env.note(f"pack(value, {size}, {e})")
    r = env.call(u.pack, v, size, *a)
    env.check(r.ok, "pack failed", lambda: repr(r))
    if not r.ok:
        return
    want = encode(env, v, n, order)
    env.observe("packed", r.value)
    env.check(len(r.value) == n and env.mkbytes(env.els(r.value)) == want, "pack is not two's complement in the requested order", lambda: f"{size} {e} {v!r} {r!r} {want!r}")
    env.reach("pack")
    sign = part == "negative"
    if sign:
        env.reach("negative")
    for data in (r.value, env.bytearray(r.value), env.memoryview(r.value)):
        b = env.call(u.unpack, data, size, **kw, sign=sign)
        env.check(b.ok and env.eq(b.value, v), "unpack is not the inverse of pack", lambda: f"{size} {e} {v!r} {r!r} {b!r}")
    b = env.call(lambda: u.unpack(r.value, sign=sign, **kw))
    env.check(b.ok and env.eq(b.value, v), "unpack is not the inverse of pack", lambda: f"{size} {e} {v!r} {r!r} {b!r}")
    if size in (8, 16, 32, 64):
        h = env.call(getattr(u, f"p{size}"), v, *a)
        env.check(h.ok and h.value == r.value, "a helper differs from pack", lambda: f"p{size} {e} {v!r} {h!r}")
        h = env.call(lambda: getattr(u, f"u{size}")(r.value, **kw, sign=sign))
        env.check(h.ok and env.eq(h.value, v), "a helper differs from unpack", lambda: f"u{size} {e} {v!r} {h!r}")
        h = env.call(lambda: getattr(u, f"u{size}")(r.value, *(a or ["little"]), sign))
        env.check(h.ok and env.eq(h.value, v), "a helper differs from unpack", lambda: f"u{size} {e} {v!r} {h!r}")
        env.reach("helper")
    if not sign:
        # what is left out is little-endian and unsigned
        whole = {size, None} if size == 8 * n else {size}
        for f in [lambda k=k: u.unpack(r.value, k, *a) for k in whole] + [lambda: u.unpack(r.value, **kw)] + ([lambda: getattr(u, f"u{size}")(r.value, *a)] if size in (8, 16, 32, 64) else []):
            h = env.call(f)
            env.check(h.ok and env.eq(h.value, v), "unpacking without a sign is not unsigned", lambda: f"{size} {e} {v!r} {h!r}")


def packed(env, lo, hi, order):
    """Without a size: as few bytes as pack sees fit, and back."""
    u = env.lib.utils
    v = env.int("value", lo, hi)
    e = env.choice("endian", [o for o, w in ORDERS.items() if w == order])
    env.note(f"pack(value, endian={e})")
    r = env.call(lambda: u.pack(v, endian=e))
    env.check(r.ok, "pack without a size failed", lambda: f"{v!r} {r!r}")
    if not r.ok:
        return
    n = len(r.value)
    env.check(env.mkbytes(env.els(r.value)) == encode(env, v, n, order), "pack is not two's complement in the requested order", lambda: f"{e} {v!r} {r!r}")
    b = env.call(lambda: u.unpack(r.value, endian=e, sign=hi < 0))
    env.check(b.ok and env.eq(b.value, v), "unpack is not the inverse of pack", lambda: f"{e} {v!r} {r!r} {b!r}")
    b = env.call(u.unpack, r.value, 8 * n, e, hi < 0)
    env.check(b.ok and env.eq(b.value, v), "unpack is not the inverse of pack", lambda: f"{e} {v!r} {r!r} {b!r}")
    if order == "little":
        h = env.call(u.pack, v)
        env.check(h.ok and h.value == r.value, "packing without a byte order is not little-endian", lambda: f"{v!r} {r!r} {h!r}")
    env.reach("without size")


def unpack(env, n, order, sign):
    u = env.lib.utils
    data = env.bytes("data", n)
    e = env.choice("endian", [o for o, w in ORDERS.items() if w == order])
    els = env.els(data)
    v = 0
    for x in els if order == "big" else els[::-1]:
        v = v * 256 + env.mkint_el(x)
    if sign and n:
        top = env.mkint_el(els[0] if order == "big" else els[-1])
        if env.branch(top >= 128):
            v = v - (1 << 8 * n)
    size = env.choice("size", [8 * n, None, *([8 * n - 3] if n else [])])
    env.note(f"unpack(data, {size}, {e}, {sign})")
    r = env.call(u.unpack, data, size, e, sign)
    env.check(r.ok and env.eq(r.value, v), "unpack is not two's complement in the requested order", lambda: f"{data!r} {size} {e} {sign} {r!r}")
    if not r.ok:
        return
    env.reach("unpack")
    if size:
        b = env.call(u.pack, r.value, size, e)
        env.check(b.ok and b.value == data, "pack is not the inverse of unpack", lambda: f"{data!r} {size} {e} {sign} {b!r}")
        if size in (8, 16, 32, 64):
            h = env.call(lambda: getattr(u, f"u{size}")(data, e, sign))
            env.check(h.ok and env.eq(h.value, v), "a helper differs from unpack", lambda: f"{data!r} {h!r}")
            h = env.call(lambda: getattr(u, f"p{size}")(v, endian=e))
            env.check(h.ok and h.value == data, "a helper differs from pack", lambda: f"{data!r} {h!r}")


def swap(env, size, negative):
    u = env.lib.utils
    n = (size + 7) // 8
    v = env.int("value", -(1 << size - 1), -1) if negative else env.int("value", 0, (1 << 8 * n) - 1)
    fs = [("swap", lambda x: u.swap(x, size))]
    if size in (16, 32, 64):
        fs.append((f"swap{size}", getattr(u, f"swap{size}")))
    for name, f in fs:
        env.note(f"{name}(value, {size})")
        r = env.call(f, v)
        env.check(r.ok, "swap failed", lambda: f"{v!r} {r!r}")
        if not r.ok:
            return
        a, b = encode(env, v, n, "big"), encode(env, r.value, n, "little")
        env.check(a == b, "swap does not reverse the bytes", lambda: f"{name} {v!r} {r!r}")
        s = env.call(f, r.value)
        env.check(s.ok, "swap failed", lambda: f"{r!r} {s!r}")
        if s.ok:
            want = v + (1 << 8 * n) if negative else v
            env.check(env.either(env.eq(s.value, want), env.eq(s.value, v)), "swapping twice is not the identity", lambda: f"{name} {v!r} {r!r} {s!r}")
        env.reach("swap negative" if negative else "swap")


def show(env, v, top=False):
    """How a value is listed."""
    lib = env.lib
    if isinstance(v, lib.Structure):
        if not isinstance(v, type(v)) or not hasattr(type(v), "fields"):
            v = getattr(v, "__target__", v)
        parts = []
        for k, f in type(v).fields.items():
            parts += [" ", k, "=", show(env, v[k], True)]
        return env.join(["<", type(v).__name__, *(parts or [" "]), ">"])
    if isinstance(v, list):
        return env.join(["[", *[p for i, x in enumerate(v) for p in ([", "] if i else []) + [show(env, x)]], "]"])
    c = env.canon(v)
    if top and c[0] == "i":
        return env.hex(v)
    return env.repr(v)


def squeeze(tokens):
    return [t for t in tokens if not (type(t) is int and t in (32, 10))]


def listing(env, s):
    out = ["struct", type(s).__name__, ":"]
    for f in type(s).__fields__:
        v = getattr(s, f._name)
        if type(f.type).__name__ == "MetaType" and f.type.__name__ == "void":
            env.skip("void")
        out += ["-", f._name, ":", show(env, v, True)]
    return squeeze(env.tokens(env.join(out)))


def split_dump(env, tokens, name):
    mark = [10] + [ord(c) for c in f"struct {name}:"]
    for i in range(len(tokens)):
        if tokens[i : i + len(mark)] == mark if all(type(t) is int for t in tokens[i : i + len(mark)]) else False:
            head = tokens[:i]
            while head and type(head[0]) is int and head[0] == 10:
                head = head[1:]
            while head and type(head[-1]) is int and head[-1] == 10:
                head = head[:-1]
            return head, tokens[i:]
    return None


def dumpstruct(env, keys, endian, align, compiled, form, union=False, extra=1):
    env.tag = "+".join(keys)
    st = M.build(keys, union=union)
    cfg = Cfg(endian, align, compiled=compiled)
    if straddles(st, cfg):
        env.skip("bit-fields straddle their unit")
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled)
    t, f = cs.T, env.lib.dumpstruct
    detail = st.text()
    if form == "default":
        s = env.call(t)
        env.reach("default")
    else:
        n = min_len(st, cfg) + env.choice("more", [0, extra])
        data = env.bytes("data", n)
        stream = env.stream(data)
        s = env.call(t, stream)
        if not s.ok:
            env.skip("does not parse")
        used = data[: stream.tell()]
    if not s.ok:
        env.skip("no instance")
    s = s.value
    if form == "constructed":
        if union or t.dynamic:
            env.skip("constructed from values")
        c = env.call(lambda: t(**{k: getattr(s, k) for k in t.lookup}))
        if not c.ok:
            env.skip("cannot be constructed")
        s = c.value
        env.reach("constructed")
    b = env.call(s.dumps)
    if not b.ok:
        env.skip("cannot be written")
    els = env.els(b.value)
    want = listing(env, s)
    offset = env.choice("offset", [0, 0x1F0])
    kw = {"offset": offset} if offset else {}
    if any(x.bits for x in t.__fields__):
        env.reach("bit-fields")
    outs = {}
    for color in (False, True if offset else "default"):
        ck = {} if color == "default" else {"color": color}
        r = env.call(lambda: f(s, output="string", **ck, **kw))
        env.check(r.ok, "dumpstruct failed", lambda: f"{detail} color={color} {form}: {r!r}")
        if not r.ok:
            return
        tokens = env.tokens(r.value)
        if color is False:
            env.check(not any(type(c) is int and c == ESC for c in tokens), "colour codes without colour", lambda: f"{detail}: {r!r}")
            env.reach("dump")
        else:
            env.reach("dump in colour")
        outs[color] = tokens = uncoloured(tokens)
        parts = split_dump(env, tokens, t.__name__)
        env.check(parts is not None, "no listing", lambda: f"{detail}: {r!r}")
        if parts is None:
            return
        check_dump(env, parts[0], els, offset, "", f"{detail} color={color} {form}")
        env.check(env.same_tokens(squeeze(parts[1]), want), "the listing does not show every field with its value", lambda: f"{detail} color={color} {form}: {r!r}")
    other = outs[color]
    env.check(env.same_tokens(outs[False], other), "colour changes the dump", lambda: f"{detail}: {r!r}")
    with printed(env) as out:
        p = env.call(lambda: f(s, **kw))
    env.check(p.ok and p.value is None and env.same_tokens(squeeze(uncoloured(env.tokens(env.join(out)))), squeeze(other)), "the printed dump differs", lambda: f"{detail}: {p!r} {out}")
    env.reach("printed")
    if form == "parsed":
        for color, d in ((False, used), (True, data)) if offset else ((False, data), (True, used)):
            for _ in range(1):
                r = env.call(lambda: f(t, d, output="string", color=color, **kw))
                env.check(r.ok, "dumpstruct of given data failed", lambda: f"{detail} color={color}: {r!r}")
                if not r.ok:
                    return
                parts = split_dump(env, uncoloured(env.tokens(r.value)), t.__name__)
                env.check(parts is not None, "no listing", lambda: f"{detail}: {r!r}")
                if parts is None:
                    return
                k = len(lines_of(parts[0])) if parts[0] else 0
                if offset == 0 and parts[0]:
                    # padding may be shown as it was in the data or as it is written
                    shown = [env.els(used), env.els(data), els]
                    conds = [dump_cond(env, parts[0], x, offset) for x in shown]
                    env.check(env.either(*conds), "the dump does not show the bytes of the structure", lambda: f"{detail} {k} lines: {r!r}")
                env.check(env.same_tokens(squeeze(parts[1]), want), "the listing does not show every field with its value", lambda: f"{detail} color={color} given data: {r!r}")
                env.reach("given data")


def dump_cond(env, tokens, els, offset):
    lines = lines_of(tokens)
    want = [els[i : i + 16] for i in range(0, len(els), 16)]
    if len(lines) != len(want):
        return False
    cond = []
    for i, (line, chunk) in enumerate(zip(lines, want)):
        head = [ord(c) for c in f"{offset + 16 * i:08x}"]
        k = len(chunk)
        if len(line) < len(head) + 3 * k:
            return False
        cond.append(env.same_tokens(line[: len(head)], head))
        cond.append(env.same_tokens([c for c in line[len(head) : len(line) - k] if not (type(c) is int and c == 32)], [d for e in chunk for d in digits(e)]))
    return env.both(*cond)


DUMPS = (
    "u8 s8 u16 s24 u32 u64 s128 f16 f32 f64 ch wc ul sl e8 es g8 g32 p pc pn u8x3 u16x2 chx3 wcx2 f32x2 e8x2 px2 u8x0 ulx2 u8z chz wcz e8z n1 n3 nb nd n1x2 un "
    "u8x2x2 as au ns b3 b8 h4 eb2 tb5 xb7 b35 h4c w_h b_e b44b4 t12 eg dn d16 dch dst"
).split()
PAIRS = "u8 u32 s16 e8 chx3 wc b3 b35 as n1 dn chz p un u8x2x2".split()


def jobs(tier, lib):
    quick = tier == "quick"
    sizes = [0, 1, 2, 7, 8, 9, 15, 16, 17, 18, 24, 31, 32, 33, 34, 47, 48, 49, 50] if quick else list(range(0, 101))
    kinds = ("bytes", "bytearray", "memoryview")
    for i, n in enumerate(sizes):
        yield Job(hexdump, {"n": n, "lo": 0, "hi": n, "entries": [], "offset": ("small", 0, "wide")[i % 3], "prefix": (None, "", "| ", "0x")[i % 4], "kind": kinds[i % 3]}, cost=1)
    near = [0, 1, 2, 15, 16, 17]
    # one entry of every length, two with symbolic lengths
    for i, n in enumerate([1, 3, 15, 16, 17, 31, 33] if quick else list(range(1, 50, 2))):
        yield Job(hexdump, {"n": n, "lo": max(0, n - 18), "hi": max(0, n - 18) + 3, "entries": [0], "offset": 0, "prefix": None, "kind": "bytes"}, cost=3)
        yield Job(hexdump, {"n": n, "lo": max(0, n - 2), "hi": n, "entries": [0, near] if quick else [0, 0], "offset": 0, "prefix": "> ", "kind": "bytes"}, cost=8)
        yield Job(hexdump, {"n": n, "lo": 0, "hi": 4, "entries": ["zero", 0], "offset": 0, "prefix": None, "kind": "bytes"}, cost=4)
        yield Job(hexdump, {"n": n, "lo": 0, "hi": 4, "entries": [0, "zero", "zero"], "offset": 0, "prefix": None, "kind": "bytes"}, cost=4)
    for i, n in enumerate([2, 16, 18, 33] if quick else [1, 2, 8, 15, 16, 17, 18, 31, 32, 33, 34, 48, 49]):
        yield Job(hexdump, {"n": n, "lo": 15, "hi": 17, "entries": [near] * (3 if quick else 4), "offset": 0, "prefix": None, "kind": "bytes"}, cost=8)
    widths = [8, 16, 24, 32, 40, 48, 64, 128, 12, 9, 1, 63, 136] if quick else [*range(1, 73), 96, 127, 128, 129, 136]
    for size in widths:
        for order in ("little", "big"):
            for part in ("positive", "negative"):
                yield Job(pack, {"size": size, "order": order, "part": part}, cost=1)
        for negative in (False, True):
            yield Job(swap, {"size": size, "negative": negative}, cost=1)
    for order in ("little", "big"):
        for lo, hi in ((0, 0xFFFF), (-70000, -1), (0, 0xFFFFFFFFFF), (-(1 << 40), -1), *(() if quick else ((0, 1 << 80), (-(1 << 80), -1)))):
            yield Job(packed, {"lo": lo, "hi": hi, "order": order}, cost=2)
        for sign in (False, True):
            for n in (0, 1, 2, 3, 4, 8, 16, *(() if quick else (5, 6, 7, 9, 17, 24))):
                yield Job(unpack, {"n": n, "order": order, "sign": sign}, cost=1)
    modes = [("<", False, True), (">", True, False), ("<", True, True), (">", False, False), ("<", False, False), (">", True, True)]
    for i, k in enumerate(DUMPS if quick else [*DUMPS, "u8e", "che", "wce", "u24", "s48", "de", "dp", "dwc", "ndx2", "nbx2", "chzx2", "n1x2x1", "up", "nu", "x1", "q11", "sh7", "gb4"]):
        for j, form in enumerate(("parsed", "constructed", "default")):
            for m, (e, al, c) in enumerate(modes):
                if quick and (i + j + m) % (3 if form == "parsed" else 6):
                    continue
                yield Job(dumpstruct, {"keys": [k], "endian": e, "align": al, "compiled": c, "form": form}, cost=3)
    for i, a in enumerate(PAIRS):
        for j, b in enumerate(PAIRS):
            for m, (e, al, c) in enumerate(modes):
                if quick and ((i + 5 * j + m) % 6 or (i + j) % 2):
                    continue
                yield Job(dumpstruct, {"keys": [a, b], "endian": e, "align": al, "compiled": c, "form": ("parsed", "constructed", "parsed", "default")[(i + j + m) % 4]}, cost=4)
    for i, k in enumerate(["u8", "u32", "chx3", "n1", "u8x2x2", "e8", "wc"]):
        for m, (e, al, c) in enumerate(modes[:2] if quick else modes):
            yield Job(dumpstruct, {"keys": [k, "u16"], "endian": e, "align": al, "compiled": c, "form": ("parsed", "default")[(i + m) % 2], "union": True}, cost=4)


_ = (b_and, b_not, b_or, code_it, op_add, in_set)
