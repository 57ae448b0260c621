"""C09: position-independent parsing, stream position, input kinds and call forms."""

from __future__ import annotations

from spec import menu as M
from spec.model import EOF, NULL, Arr, Cfg, Cur, Ptr, RefEOF, RefError, Struct, anon_names
from spec.types import SCALARS
from vse.canon import ceq
from vse.run import Job

from .c08 import Stream
from .common import CONFIGS, is_eof, keys_of, room, source, straddles, usable

WITNESSES = ["moved", "exact", "forms", "sequence", "union", "scalar", "dynamic union"]
BOUNDS = (
    "every fragment of spec/menu.py alone, between two fields and in pairs of core fragments, unions, every scalar, pointer and array of scalars on its own, both byte orders, packed and aligned, both readers; "
    "definitions with a part of 16 to 256 bytes (symbolic at PROBES); data, the bytes before and the bytes after symbolic; positions 1, 2, 3, 5 and 8 (aligned structures: multiples of the alignment up to 16 bytes); one, two and three values in a row; "
    "bytes, bytearray, memoryview, BytesIO and another file-like object through T(x), T.read, T.reads and cs.read"
)
ASSUMPTIONS = ["the encoded size of a dynamic union is the extent of its largest member", "to-end-of-stream arrays are parsed without bytes after them"]


def outcome(env, f):
    r = env.call(f)
    return r, (anon_names(env.canon(r.value)) if r.ok else None)


def agree(env, a, b, label, detail):
    """Two parses agree: both fail, or both give the same value."""
    (ra, ca), (rb, cb) = a, b
    env.check(ra.ok == rb.ok, label, lambda: f"{detail()}: {ra!r} vs {rb!r}")
    if ra.ok:
        env.check(ceq(ca, cb), label, lambda: f"{detail()}: {ra.value!r} vs {rb.value!r}")
    return ra.ok


def positions(env, t, ty, cfg, data, places, pre, post):
    """Parse ``data`` on its own, then with bytes around it at every place."""
    els = env.els(data)
    cur = Cur(env, els)
    try:
        want = anon_names(ty.read(cur, cfg, {}))
    except (RefEOF, RefError):
        want = None
    s0 = env.stream(data)
    own = outcome(env, lambda: t(s0))
    env.check(own[0].ok == (want is not None), "parsing the bytes on their own", lambda: f"{bytes(data).hex()}: {own[0]!r}")
    if want is None:
        return None
    end = cur.pos
    env.observe("own", own[0].value)
    env.check(ceq(own[1], want), "value of the bytes on their own", lambda: f"{bytes(data).hex()}: {own[0]!r}")
    env.check(s0.tell() == end, "position after the value", lambda: f"{bytes(data).hex()}: {s0.tell()} != {end}")
    # what follows the encoded extent does not matter
    if not getattr(cur, "open", False):
        s1 = env.stream(data[:end])
        r1 = outcome(env, lambda: t(s1))
        agree(env, own, r1, "the value depends on what follows it", lambda: bytes(data).hex())
        s2 = env.stream(data[:end] + post)
        r2 = outcome(env, lambda: t(s2))
        agree(env, own, r2, "the value depends on what follows it", lambda: bytes(data).hex())
        env.check(s2.tell() == end, "position depends on what follows")
        env.reach("exact")
    for p in places:
        s = env.stream(pre[:p] + data)
        s.seek(p)
        r = outcome(env, lambda: t(s))
        agree(env, own, r, "the value depends on the position in the stream", lambda: f"at {p} after {bytes(pre[:p]).hex()}: {bytes(data).hex()}")
        env.check(s.tell() - p == s0.tell(), "stream position is not the start plus the encoded size", lambda: f"at {p}: {s.tell()}, on its own {s0.tell()}")
        env.check(env.same(s.getvalue(), pre[:p] + data), "the stream was changed")
        env.reach("moved")
    return own, end, s0.tell()


def forms(env, cs, t, name, data, own, pre, end):
    """Every way to hand over the same bytes."""
    ba = env.bytearray(data)
    kinds = [("bytes", lambda: data), ("bytearray", lambda: ba), ("memoryview", lambda: env.memoryview(data)), ("memoryview of a bytearray", lambda: env.memoryview(ba)), ("BytesIO", lambda: env.stream(data)), ("file-like", lambda: Stream(env, data))]
    for kind, make in kinds:
        calls = [("T(x)", lambda x: t(x)), ("T.read(x)", lambda x: t.read(x))]
        if kind not in ("BytesIO", "file-like"):
            calls.append(("T.reads(x)", lambda x: t.reads(x)))
        if name is not None:
            calls.append(("cs.read(name, x)", lambda x: cs.read(name, x)))
            calls.append(("cs.name(x)", lambda x: getattr(cs, name)(x)))
        for form, f in calls:
            x = make()
            r = outcome(env, lambda: f(x))
            agree(env, own, r, "input kinds or call forms disagree", lambda: f"{form} of {kind} {bytes(data).hex()}")
            if kind in ("BytesIO", "file-like"):
                env.check(x.tell() == end, "position after the value", lambda: f"{form} of {kind}: {x.tell()} != {end}")
            elif kind == "bytearray":
                env.check(env.same(bytes(x) if not env.sym else x, data), "the input was changed")
            if r[0].ok and form != "T(x)":
                a, b = own[0].value, r[0].value
                env.check(type(a) is type(b), "call forms give different types", lambda: f"{form} of {kind}: {type(a)} {type(b)}")
    env.reach("forms")


def structs(env, prefix, options, suffix, endian, align, compiled, extra, what, ptr="uint64"):
    keys = keys_of(prefix, env.choice("fields", options), suffix)
    env.tag = "+".join(keys)
    if not usable(keys):
        env.skip("unreachable field")
    st = M.build(keys)
    cfg = Cfg(endian, align, ptr)
    if straddles(st, cfg):
        env.skip("bit-fields straddle their unit")
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled, pointer=ptr)
    run(env, cs, cs.T, st, cfg, room(keys, st, cfg, extra), what, "T", keys)


def run(env, cs, t, ty, cfg, n, what, name, keys=("",)):
    data = source(env, keys, ty, cfg, n)
    al = ty.align(cfg) if cfg.align else 1
    places = [p for p in (((1, 5) if keys[0] in M.LARGE else (1, 2, 3, 5, 8)) if al == 1 else (al, 2 * al, 16)) if p <= 16]
    pre, post = env.bytes("pre", max(places)), env.bytes("post", 3)
    if is_eof(ty):
        post = post[:0]
    res = positions(env, t, ty, cfg, data, places if what != "forms" else (), pre, post)
    if res is None:
        return
    own, end, tell = res
    if what != "position":
        forms(env, cs, t, name, data, own, pre, tell)
    if what == "sequence" and not is_eof(ty):
        # one after the other from the same stream
        one = data[:end] + bytes(max(0, end - n))
        k = 3
        s = env.stream(pre[: places[0]] + one * k + post)
        s.seek(places[0])
        for i in range(k):
            r = outcome(env, lambda: t(s))
            agree(env, own, r, "a later value of the stream differs", lambda: f"value {i}")
            env.check(s.tell() == places[0] + (i + 1) * end, "position after consecutive values", lambda: f"value {i}: {s.tell()}, size {end}")
        env.reach("sequence")


def unions(env, prefix, options, endian, align, what):
    keys = keys_of(prefix, env.choice("fields", options))
    env.tag = "+".join(keys)
    st = M.build(keys, union=True)
    cfg = Cfg(endian, align)
    cs = env.load(st.source(), endian=endian, align=align)
    env.reach("union")
    run(env, cs, cs.T, st, cfg, st.size(cfg) + 1, what, "T")


def dynamic_union(env, options, endian, compiled):
    """Members of variable size: every member at the start, the extent is the largest one's."""
    a, b = env.choice("members", options)
    env.tag = f"{a}|{b}"
    st = Struct("U", [*M.frag(a, 0), *M.frag(b, 1)], union=True)
    if len(st.fields) != 2:
        env.skip("not two members")
    cfg = Cfg(endian)
    outer = Struct("T", [("a", M.U8), ("u", st), ("z", M.U8)])
    cs = env.load(outer.source(), endian=endian, compiled=compiled)
    data = env.bytes("data", 6 if "u32" in (a, b) else 4)
    els = env.els(data)
    pre = env.bytes("pre", 5)
    # reference: both members from the same start
    vals, end = [], 0
    for f in st.fields:
        c = Cur(env, els)
        try:
            vals.append((f.name, anon_names(f.ty.read(c, cfg, {}))))
        except (RefEOF, RefError):
            vals = None
            break
        end = max(end, c.pos)
    s = env.stream(data)
    own = outcome(env, lambda: cs.U(s))
    env.check(own[0].ok == (vals is not None), "parsing a dynamic union", lambda: f"{bytes(data).hex()}: {own[0]!r}")
    if vals is None:
        return
    env.observe("own", own[0].value)
    env.check(ceq(own[1], ("st", "", tuple(vals))), "members of a dynamic union", lambda: f"{bytes(data).hex()}: {own[0]!r}")
    env.check(s.tell() == end, "position after a dynamic union", lambda: f"{s.tell()} != {end}")
    for p in (1, 2, 5):
        m = env.stream(pre[:p] + data)
        m.seek(p)
        r = outcome(env, lambda: cs.U(m))
        agree(env, own, r, "a dynamic union depends on its position", lambda: f"at {p}: {bytes(data).hex()}")
        env.check(m.tell() == p + end, "position after a dynamic union", lambda: f"at {p}: {m.tell()} != {p + end}")
    forms(env, cs, cs.U, "U", data, own, pre, end)
    if end < len(els):
        r = outcome(env, lambda: cs.T(pre[:1] + data))
        env.check(r[0].ok and ceq(r[1], ("st", "", (("a", ("i", env.raw(pre[0]))), ("u", own[1]), ("z", ("i", env.raw(data[end])))))), "a structure around a dynamic union", lambda: f"{bytes(data).hex()}: {r[0]!r}")
    env.reach("dynamic union")


def scalar(env, names, endian, form, what):
    from .c05 import model

    name = env.choice("type", names)
    env.tag = f"{name} {form}"
    ty = model(name) if name in SCALARS else {"E8": M.E8, "E16": M.E16, "G8": M.G8, "ES": M.ES}[name]
    if name in SCALARS:
        cs = env.lib.cstruct(endian=endian, pointer="uint32")
    else:
        cs = env.load(Struct("D", [("f", ty)]).source(), endian=endian, pointer="uint32")
    t = cs.resolve(name)
    cfg = Cfg(endian, False, "uint32")
    call = name
    if form == "ptr":
        ty, t, call = Ptr(ty), cs._make_pointer(t), None
    elif form == "null":
        ty, t, call = Arr(ty, NULL), t[None], None
    elif form == "eof":
        cs.load(f"struct W {{ {name} x[EOF]; }};")
        ty, t, call = Arr(ty, EOF), cs.W.fields["x"].type, None
    elif form != "one":
        ty, t, call = Arr(ty, form), t[form], None
    size = ty.size(cfg)
    quick = env.limit == "quick"
    if form == "eof" and name in ("E8", "G8", "ileb128") and quick:
        size = 2
    env.reach("scalar")
    run(env, cs, t, ty, cfg, (size if size is not None else (3 if quick and (name in ("E8", "G8", "ileb128", "uleb128") or form == "eof") else 4)) + (0 if form == "eof" else 1), what, call)


def jobs(tier, lib):
    quick = tier == "quick"
    singles = [k for k in M.FIXED_ALL + M.BITS_ALL + M.SBITS + M.DYN_ALL + M.EOF_ALL if k != "pz" and not (quick and k in [*M.HEAVY, "e8x2x2", "g8z", "ule", "slz", "g8"])]
    core = M.CORE + M.CORE_BITS + M.CORE_DYN
    x = 2 if quick else 5
    for i, (e, al, c) in enumerate(CONFIGS):
        kw = {"endian": e, "align": al, "compiled": c}
        both = not quick or i in (1, 3, 4, 6)
        for k in range(0, len(singles), 8):
            yield Job(structs, {"prefix": "", "options": singles[k : k + 8], "suffix": "", "extra": x, "what": "sequence", **kw}, cost=20)
            opts = [o for o in singles[k : k + 8] if o not in M.EOF_KEYS]
            if both and opts:
                yield Job(structs, {"prefix": "u8", "options": opts, "suffix": "u16", "extra": x, "what": "position", **kw}, cost=20)
        if both and (not quick or i != 6):
            for k in range(0, len(M.LARGE), 4):
                yield Job(structs, {"prefix": "", "options": [*M.LARGE][k : k + 4], "suffix": "", "extra": 0, "what": "position" if quick and i in (3, 4) else "sequence", **kw}, cost=40)
        for f in core if both else ():
            if quick and (f in M.HEAVY_FIRST or (f in M.CORE_DYN and f not in ("dn", "chz"))):
                continue
            opts = core if not quick else [o for o in core if o not in ("n1z", "wcz", "ul", "nd", "dx")]
            for k in range(0, len(opts), 16):
                yield Job(structs, {"prefix": f, "options": opts[k : k + 16], "suffix": "", "extra": 1 if quick else 3, "what": "position", **kw}, cost=10)
    for e in "<>":
        for al in (False, True):
            for f in M.CORE + ["nb", "n2", "up", "u16x2"]:
                yield Job(unions, {"prefix": f, "options": [k for k in M.CORE + ["nb", "n2", "n3", "nu", "e24"] if k != "au"], "endian": e, "align": al, "what": "position" if f != "u8" else "sequence"}, cost=10)
        ms = [(a, b) for a in ("chz", "ul", "u8z", "nd", "wcz") for b in ("u8", "u16", "u32", "chx3", "ul", "chz")]
        for c in (False, True):
            for k in range(0, len(ms), 6):
                yield Job(dynamic_union, {"options": ms[k : k + 6] + [(b, a) for a, b in ms[k : k + 6]], "endian": e, "compiled": c}, cost=10)
        for form in ("one", "ptr", "null", "eof", 0, 1, 2, 3):
            names = [n for n in [*SCALARS, "E8", "E16", "G8", "ES"] if n != "void" or form not in ("null", "eof")]
            if quick and form in ("null", "eof"):
                names = [n for n in names if n != "G8"]
            if quick and form in (2, 3):
                names = [n for n in names if n not in ("G8", "ileb128") and (form == 2 or n not in ("E8", "E16", "ES", "uleb128"))]
            for k in range(0, len(names), 6):
                yield Job(scalar, {"names": names[k : k + 6], "endian": e, "form": form, "what": "sequence"}, cost=10)
