"""C06: bit-fields partition their storage unit exactly, in endian-defined order."""

from __future__ import annotations

from itertools import product

from spec import menu as M
from spec.model import Enum, Int, dec_int
from vse.canon import elseq
from vse.core import r_to_els
from vse.run import Job

WITNESSES = ["read", "written", "rejected", "symbolic widths", "compiled", "new unit"]
BOUNDS = (
    "symbolic widths (interpreted reader): 34 sequences of up to 5 bit-fields and plain fields over 8/16/24/32/48/64/128-bit signed and unsigned, enum and flag storage, every width assignment (also those that straddle); "
    "concrete widths (interpreted and compiled): every triple of widths in uint8, sequences over widths around byte and unit boundaries for all other storage types; "
    "byte orders <, >, =, @, !, packed and aligned, after a fixed and after a variable-length field; all unit contents and all field values symbolic"
)

TY = {
    "u8": M.U8, "s8": M.S8, "u16": M.U16, "s16": M.S16, "u24": M.U24, "s24": M.S24, "u32": M.U32, "s32": M.S32, "u48": M.U48, "u64": M.U64,
    "s64": M.S64, "u128": M.U128, "e8": M.E8, "e16": M.E16, "es": M.ES, "g8": M.G8, "g32": M.G32, "s48": M.S48, "s128": M.S128,
}  # fmt: skip


class Straddle(Exception):
    pass


def base(t):
    return t.base if isinstance(t, Enum) else t


def plan(env, seq, widths, align, start):
    """Placement by the property's rules: (offset, bytes, used bits before, width) per bit-field, (offset, bytes) per plain field."""
    out = []
    pos = start
    unit, used = None, 0
    top = 1
    for k, w in zip(seq, widths):
        t = TY[k.lstrip("!")]
        b = base(t)
        top = max(top, b.al)
        if k[0] == "!":
            unit = None
            pos += -pos % b.al if align else 0
            out.append((pos, b.n))
            pos += b.n
            continue
        if unit is None or unit[0] != b.base or env.branch(env.eq(used, 8 * b.n)):
            env.reach("new unit")
            pos += -pos % b.al if align else 0
            unit, used = (b.base, pos), 0
            pos += b.n
        if not env.branch(env.le(used + w, 8 * b.n)):
            raise Straddle
        out.append((unit[1], b.n, used, w))
        used = used + w
    pos += -pos % top if align else 0
    return out, pos


def decl(k, i, w):
    t = TY[k.lstrip("!")]
    return f"{t.name} f{i}{'' if k[0] == '!' else ':' + str(w)};"


def run(env, seq, widths, endian, align, compiled, lead):
    """``widths`` None: symbolic (fields added through the API, interpreted reader)."""
    out = {}
    for k in seq:
        TY[k.lstrip("!")].decls(out)
    big = endian in ">!"
    dyn = lead == "dyn"
    head = {"": "", "fix": "uint8 h;", "dyn": "uint8 h; uint8 s[h];"}[lead]
    if widths is None:
        widths = [None if k[0] == "!" else env.int(f"w{i}", 1, 8 * base(TY[k]).n) for i, k in enumerate(seq)]
        env.reach("symbolic widths")
        cs = env.load("\n".join(out.values()) + f"\nstruct T {{ {head} }};", endian=endian, align=align, compiled=False)

        def build():
            with cs.T.start_update():
                for i, (k, w) in enumerate(zip(seq, widths)):
                    t = cs.resolve(TY[k.lstrip("!")].name)
                    cs.T.add_field(f"f{i}", t) if w is None else cs.T.add_field(f"f{i}", t, bits=w)

        r = env.call(build)
    else:
        src = "\n".join(out.values()) + f"\nstruct T {{ {head} {' '.join(decl(k, i, w) for i, (k, w) in enumerate(zip(seq, widths)))} }};"
        cs = env.lib.cstruct(endian=endian)
        env.note(f"endian={endian} align={align} compiled={compiled} {src}")
        r = env.call(cs.load, src, align=align, compiled=compiled)
    start = {"": 0, "fix": 1, "dyn": 1}[lead]
    count = env.choice("count", [0, 1, 2, 3]) if dyn else 0
    try:
        places, end = plan(env, seq, widths, align, start + count)
    except Straddle:
        env.reach("rejected")
        env.check(not r.ok, "a straddling bit-field was accepted", lambda: f"{seq} {widths}")
        return
    env.check(r.ok, "the definition was refused", lambda: f"{seq} {widths}: {r!r}")
    T = cs.T
    if T.__compiled__:
        env.reach("compiled")
    body = env.bytes("data", end - start - count)
    lead_b = bytes([count] * (start + count)) if dyn else b"\x05" * start
    data = lead_b + body
    els = env.els(data)
    stream = env.stream(data)
    r = env.call(T, stream)
    env.check(r.ok, "parsing raised", lambda: f"{bytes(data).hex()}: {r!r}")
    v = r.value
    env.check(stream.tell() == end, "bytes consumed", lambda: f"{stream.tell()} != {end}")
    if not dyn:
        env.check(T.size == end, "size", lambda: f"{T.size} != {end}")
    units = {}
    for i, (k, p) in enumerate(zip(seq, places)):
        got = raw_int(env, getattr(v, f"f{i}"))
        if len(p) == 2:
            want = env.mkint(dec_int(els[p[0] : p[0] + p[1]], big, base(TY[k[1:]]).signed))
            env.check(env.eq(got, want), "plain field value", lambda: f"f{i}: {got} != {want}")
            continue
        off, n, used, w = p
        u = env.mkint(dec_int(els[off : off + n], big, False))
        sh = 8 * n - used - w if big else used
        want = (u >> sh) & ((1 << w) - 1)
        env.check(env.eq(got, want), "bit-field value", lambda: f"f{i}: {got} != {want} in {bytes(data).hex()}")
        env.check(env.both(got >= 0, got < (1 << w)), "bit-field value out of range", lambda: f"f{i}: {got}")
        if isinstance(TY[k], Enum):
            env.check(isinstance(getattr(v, f"f{i}"), env.lib.Enum if TY[k].kind == "enum" else env.lib.Flag), "bit-field is not of its enum type")
        units[off] = n
        env.observe(f"f{i}", got)
    env.reach("read")
    out = env.call(v.dumps)
    env.check(out.ok, "dumping raised", lambda: repr(out))
    want = encode(env, seq, places, [raw_int(env, getattr(v, f"f{i}")) for i in range(len(seq))], big, end, list(lead_b))
    env.check(elseq(env.els(out.value), want, 8), "dump of the parsed value", lambda: f"{bytes(data).hex()} -> {bytes(out.value).hex()}")
    if dyn:
        return
    # every value that fits, written and read back
    kw = {"h": 5} if lead else {}
    vals = []
    for i, (k, p) in enumerate(zip(seq, places)):
        t = TY[k.lstrip("!")]
        b = base(t)
        if len(p) == 2:
            x = env.int(f"v{i}", *b.lim())
        else:
            x = env.int(f"v{i}", 0, (1 << (8 * b.n)) - 1) if type(p[3]) is not int else env.int(f"v{i}", 0, (1 << p[3]) - 1)
            if type(p[3]) is not int:
                env.assume(x < (1 << p[3]))
        vals.append(x)
        kw[f"f{i}"] = getattr(cs, t.name)(x) if isinstance(t, Enum) else x
    r = env.call(lambda: T(**kw).dumps())
    env.check(r.ok, "writing values that fit raised", lambda: f"{kw}: {r!r}")
    want = encode(env, seq, places, vals, big, end, list(lead_b))
    env.observe("written", r.value)
    env.check(elseq(env.els(r.value), want, 8), "written bytes", lambda: f"{kw} -> {bytes(r.value).hex()}")
    again = env.call(T, r.value)
    env.check(again.ok, "reading back raised", lambda: repr(again))
    for i, x in enumerate(vals):
        got = raw_int(env, getattr(again.value, f"f{i}"))
        env.check(env.eq(got, x), "reading back gives another value", lambda: f"f{i}: {got} != {x}")
    env.reach("written")


def raw_int(env, x):
    return env.mkint(env.raw(x))


def encode(env, seq, places, vals, big, end, lead):
    els = lead + [0] * (end - len(lead))
    units = {}
    for p, x in zip(places, vals):
        if len(p) == 2:
            e = r_to_els(env.raw(x), p[1])
            els[p[0] : p[0] + p[1]] = e if big else e[::-1]
            continue
        off, n, used, w = p
        sh = 8 * n - used - w if big else used
        u, _ = units.get(off, (0, n))
        units[off] = (u + (x << sh), n)
    for off, (u, n) in units.items():
        e = r_to_els(env.raw(u), n)
        els[off : off + n] = e if big else e[::-1]
    return els


def symbolic(env, seqs, endian, align, lead):
    s = env.choice("seq", seqs)
    env.tag = f"{lead} {s}"
    run(env, s.split(), None, endian, align, False, lead)


def concrete(env, cases, endian, align, compiled, lead):
    s, w = env.choice("case", cases)
    env.tag = f"{lead} {s}"
    run(env, s.split(), w, endian, align, compiled, lead)


SEQS = [
    "u8", "u8 u8", "u8 u8 u8", "s8 s8 s8", "u16 u16 u16", "s16 s16", "u24 u24 u24", "s24 s24", "u32 u32 u32", "s32 s32", "u48 u48", "u64 u64 u64", "s64 s64",
    "u128 u128", "u8 u16 u8", "u16 u8 u8 u16", "u8 !u8 u8", "u16 !u8 u16", "u8 !u32 u8 u8", "!u16 u8 u8 !u8", "u32 !u16 u32", "e8 e8", "e8 u8 e8", "u8 e8", "e16 u16",
    "es s16 es", "g8 u8", "u16 s16 u16", "u8 s8", "u16 u32", "u64 !u8 u64", "u8 u24 u8", "u8 u8 u8 u8", "u16 u16 !u16 u16 u16",
]  # fmt: skip


def cases(quick):
    out = [("u8 u8 u8", list(w)) for w in product(range(1, 9), repeat=3)]
    for k in ("s8", "u16", "s16", "u24", "s24", "u32", "u48", "u64", "s64", "u128") if quick else ("s8", "u16", "s16", "u24", "s24", "u32", "s32", "u48", "s48", "u64", "s64", "u128", "s128"):
        n = 8 * TY[k].n
        ws = sorted(({1, 3, 7, 8, 9, n // 2, n - 9, n - 8, n - 7, n - 1, n} if not quick else {1, 7, 8, n // 2, n - 1, n}) & set(range(1, n + 1)))
        out += [(f"{k} {k}", [a, b]) for a in ws for b in ws]
        out += [(f"{k} {k} {k}", [a, b, n - a - b]) for a in ws for b in ws if 0 < n - a - b]
        out += [(f"{k} {k} !u8 {k}", [a, n - a or 1, None, b]) for a in (1, n // 2, n) for b in (1, n)]
    mix = [
        ("e8 e8", (3, 5)), ("e8 u8 e8", (1, 5, 2)), ("g8 u8", (3, 5)), ("u8 g8", (6, 2)), ("e16 u16", (5, 11)), ("es s16", (6, 10)), ("es es", (9, 7)), ("g32 u32", (2, 30)),
        ("u8 u16 u8", (3, 9, 5)), ("u16 u8 u8 u16", (3, 2, 6, 16)), ("u8 !u8 u8", (3, None, 5)), ("u16 !u8 u16", (3, None, 13)), ("u8 !u32 u8 u8", (3, None, 1, 7)),
        ("!u16 u8 u8 !u8", (None, 4, 4, None)), ("u32 !u16 u32", (31, None, 32)), ("u16 s16 u16", (8, 8, 8)), ("u8 s8 u8", (1, 1, 1)), ("u16 u32 u64", (1, 1, 1)),
        ("u64 !u8 u64", (64, None, 1)), ("u8 u24 u8", (8, 24, 8)), ("u8 u8 u8 u8 u8", (4, 4, 4, 4, 4)), ("u16 u16 !u16 u16 u16", (8, 8, None, 15, 1)), ("u24 u32 u24", (9, 9, 9)),
        ("u8 u8 !u64", (8, 8, None)), ("u16 !u64 !u8 u16", (1, None, None, 15)), ("u8 u16 u16 u8 u8", (8, 8, 8, 1, 7)), ("s8 !u8 s8", (7, None, 8)), ("u48 u48 u48", (16, 16, 16)),
        ("u8 u16 u32", (9, 1, 1)), ("u8 u8", (4, 5)), ("u16 u16 u16", (10, 6, 1)), ("u32 u8 u32", (4, 4, 4)), ("e8 g8 e8", (1, 1, 2)), ("!u8 u32 !u8 u32", (None, 5, None, 7)),
    ]  # fmt: skip
    # many fields, many units
    long = [("u32", 4, 40), ("u8", 1, 24), ("u64", 1, 66), ("u16", 16, 18), ("u24", 8, 20), ("u48", 12, 33)]
    mix += [(" ".join([k] * n), [w] * n) for k, w, n in long]
    mix += [(" ".join(["u8"] * 8 + ["u16"] * 16 + ["!u8"] + ["u32"] * 32), [1] * 24 + [None] + [1] * 32), ("u8 u16 u32 u64 !u8 " * 5, [3, 9, 17, 33, None] * 5)]
    return out + [(s, list(w)) for s, w in mix]


def jobs(tier, lib):
    quick = tier == "quick"
    every = [s for s in SEQS if s not in ("u64 u64 u64", "u128 u128", "g8 u8", "es s16 es", "e8 u8 e8", "s64 s64")] + ["u64 u64", "u128", "es s16", "e8 u8", "s64"] if quick else SEQS
    light = [s for s in every if "g8" not in s and "e8" not in s]
    for e in "<>":
        for al in (False, True):
            for lead in ("", "fix", "dyn"):
                for s in every if lead == "" else light if not quick else light[2::4]:
                    yield Job(symbolic, {"seqs": [s], "endian": e, "align": al, "lead": lead}, cost=30)
    for k, e in enumerate("=@!"):
        for i, s in enumerate(["u8 u8", "u16 u16", "u8 u16 u8", "s16", "u24 u24", "e16 u16", "u8 !u16 u8"]):
            for al in (False, True):
                if s in every or not quick:
                    if not quick or (i + k + al) % 2:
                        yield Job(symbolic, {"seqs": [s], "endian": e, "align": al, "lead": ""}, cost=30)
    cs = cases(quick)
    for k, e in enumerate("=@!"):
        for i in range(0, len(cs), 24):
            if not quick or i // 24 % 3 == k:
                yield Job(concrete, {"cases": cs[i : i + 24], "endian": e, "align": False, "compiled": bool((i // 24 + k) % 2), "lead": ""}, cost=10)
    for e in "<>":
        for al in (False, True):
            for c in (False, True):
                if quick and not c and (al or e == ">"):
                    continue
                for i in range(0, len(cs), 24):
                    yield Job(concrete, {"cases": cs[i : i + 24], "endian": e, "align": al, "compiled": c, "lead": ""}, cost=10)
                some = [x for x in cs[512:] if "!" in x[0] or len(set(x[0].split())) > 1]
                for i in range(0, len(some), 12):
                    yield Job(concrete, {"cases": some[i : i + 12], "endian": e, "align": al, "compiled": c, "lead": "dyn"}, cost=10)
                    yield Job(concrete, {"cases": some[i : i + 12], "endian": e, "align": al, "compiled": c, "lead": "fix"}, cost=10)


_ = Int
