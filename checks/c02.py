"""C02: parse-then-dump reproduces every data-carrying input byte."""

from __future__ import annotations

from spec.model import Cur
from vse.canon import elseq
from vse.core import b_and, b_eq, b_not

from .common import CONFIGS, canonical, definition_jobs, pick, source

WITNESSES = ["parsed"]
BOUNDS = (
    "definitions: definitions with a part of 16 to 256 bytes or elements (LARGE of spec/menu.py), of which the bytes at PROBES are symbolic and the rest fixed; every field fragment of spec/menu.py alone and after a uint8, all ordered pairs of core fragments (thorough: triples), "
    "for byte orders < and > (fragments alone also !, =, @), packed and aligned, interpreted and compiled; input: every byte string of exactly the definition's minimal length "
    "plus 3 (thorough 6) bytes for variable-length definitions, all byte values symbolic"
)
ASSUMPTIONS = ["canonical encodings: inputs with NaN floats or non-minimal LEB128 are excluded, as the property states"]


def fidelity(env, prefix, options, endian, align, compiled, extra):
    keys, st, cfg, n = pick(env, prefix, options, endian, align, compiled, extra)
    cs = env.load(st.source(), endian=endian, align=align, compiled=compiled)
    data = source(env, keys, st, cfg, n)
    stream = env.stream(data)
    r = env.call(cs.T, stream)
    if not r.ok:
        return
    consumed = stream.tell()
    env.reach("parsed")
    src = env.els(data)
    cur = Cur(env, src)
    cur.lone = True
    st.read(cur, cfg)
    canonical(env, cur, src)
    out = env.call(r.value.dumps)
    env.check(out.ok, "dumping a parsed value raised", lambda: repr(out))
    els = env.els(out.value)
    env.observe("dump", out.value)
    known = []
    env.check(
        len(els) == consumed,
        "dump length differs from bytes consumed",
        lambda: f"{len(els)} != {consumed}: in={bytes(data).hex()} out={bytes(out.value).hex()}",
        known,
    )
    want = []
    for i in range(len(els)):
        m = cur.mask.get(i, 0)
        e = src[i] if i < len(src) else 0
        want.append(e if m == 0xFF else (e & m))
    for pos, ty in cur.float_ends:
        e = src[pos : pos + ty.n]
        msb = e[0] if cfg.big else e[-1]
        known.append(("float-minus-zero-terminator", b_eq_byte(msb, 0x80)))
    env.check(elseq(els, want, 8), "dumped bytes differ from input", lambda: f"in={bytes(data).hex()} out={bytes(out.value).hex()}", known)


def b_eq_byte(e, v):
    from vse.core import byte_it

    return b_eq(byte_it(e), v)


def jobs(tier, lib):
    yield from definition_jobs(fidelity, tier, large=True, spellings=True, pair_configs=[x for x in CONFIGS if not x[2]] if tier == "quick" else None)


_ = (b_and, b_not)
