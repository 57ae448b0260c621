"""C15: threads that parse or dump with the same types obtain what each would obtain alone."""

from __future__ import annotations

import os

from vse import core, load, run, threads
from vse.core import b_and, b_eq, b_not, byte_it
from vse.run import Job

WITNESSES = ["parsed", "dumped", "failed", "dereferenced", "independent"]
BOUNDS = (
    "two threads; 21 definitions over expressions, bit-fields, unions, pointers, arrays of every kind, strings, enums, flags and nested types, both readers; parse, dump, parse and dump, dereference, construct, "
    "in every combination of two operations; every path that the symbolic bytes of both threads can take (1 to 4 bytes each), one representative of each pair of paths; every interleaving at source-line granularity "
    "(conflicts searched by z3 over two context switches: without a conflict between the threads' accesses all interleavings are equivalent); at most 24 (thorough 200) candidate schedules replayed per pair of paths"
)
ASSUMPTIONS = [
    "runs on the same path of the code access the same shared objects",
    "shared state that Python code can't reach (inside C extensions) is only seen by its effect in the replays",
    "the operations of a source line of the package are atomic, as in the property's text",
]

C = "#define K 2\n"
DEFS = {
    "expression": (C + "struct T { uint8 n; uint8 a[(n + 1) * K - 2 & 3]; uint8 z; };", 3),
    "expressions": (C + "struct T { uint8 n; uint8 m; uint8 a[n & 1]; uint16 b[(m >> 1) & 1]; };", 4),
    "sizeof": ("struct N { uint8 a; }; struct T { uint8 n; uint8 a[sizeof(N) + (n & 1)]; uint8 b[-(n & 1) + 1]; };", 4),
    "failing": ("struct T { uint8 n; uint8 a[4 / (n - 1) & 1]; };", 2),
    "nested expression": ("struct N { uint8 k; uint8 v[k & 1]; }; struct T { uint8 n; N x[n & 1]; N y; };", 4),
    "multi": ("struct T { uint8 n; uint8 a[n & 1][2]; uint8 b[2][n & 1]; };", 5),
    "bits": ("struct T { uint8 a : 3; uint8 b : 5; uint16 c : 4; uint16 d : 12; uint8 n; uint8 x[n & 1]; };", 5),
    "signed bits": ("enum E : int8 { A, B }; struct T { int8 a : 3; E e : 5; uint8 n; char c[n & 1]; };", 3),
    "union": ("union T { uint16 a; uint8 b[2]; struct { uint8 x; uint8 y; } c; };", 2),
    "dynamic union": ("union N { uint8 a; uleb128 b; }; struct T { N u; uint8 z; };", 3),
    "anonymous": ("struct T { struct { uint8 a; uint8 b; }; union { uint8 c; uint16 d; }; };", 4),
    "pointer": ("struct N { uint8 x; }; struct T { N *p; uint8 *q; };", 1),
    "string pointer": ("struct T { char *p; uint8 n; uint8 a[n & 1]; };", 2),
    "strings": ("struct T { char a[]; wchar b[1]; };", 4),
    "terminated": ("struct T { uint8 a[]; uint16 b[]; };", 4),
    "to the end": ("struct T { uint8 a; uint16 b[EOF]; };", 4),
    "enums": ("enum E : uint8 { A, B = 5 }; struct T { E e; E f; };", 2),
    "flags": ("flag F : uint8 { X = 1, Y = 2 }; struct T { F f; uint8 n; };", 2),
    "integers": ("struct T { uint24 a; int48 b; uint128 c; float d; };", 3),
    "leb": ("struct T { uleb128 a; ileb128 b; };", 2),
    "struct arrays": ("struct N { uint8 a : 4; uint8 b : 4; uint16 c; }; struct T { N n[2]; uint8 m[2][2]; };", 2),
}
REST = {"pointer": 5, "string pointer": 4, "leb": 1, "integers": 26, "struct arrays": 10}
OPS = ["parse", "dump", "both", "construct"]


def op(env, lib, cs, what, data, stream):
    """The operation of one thread, as a function without arguments; everything it uses except the types is its own."""
    t = cs.T

    def call(f):
        try:
            return "ok", f()
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001
            return "x", type(e).__name__

    if what == "parse":

        def f():
            s = stream(data)
            return call(lambda: t(s)), s.tell()

    elif what == "both":

        def f():
            s = stream(data)
            return call(lambda: t(s).dumps()), s.tell()

    elif what == "dump":
        v = call(lambda: t(data))

        def f():
            return v if v[0] == "x" else call(lambda: v[1].dumps())

    elif what == "deref":

        def f():
            return call(lambda: [v.dereference() if v else None for v in (getattr(t(data), k) for k in t.fields) if hasattr(v, "dereference")])

    else:

        def f():
            return call(lambda: [t(), t(**{next(iter(t.fields)): getattr(t(), next(iter(t.fields)))}), t[2].__default__()])

    return f


def races(text, compiled, first, second, d0, d1, budget, stats):
    """Looks for a schedule on which a thread gets another result than alone; on the package as it is. -> description or None."""
    from vse.canon import canon

    lib = run.native()
    root = os.path.join(load.REPO, "dissect")
    cs = lib.cstruct(pointer="uint8")
    cs.load(text, compiled=compiled)
    import io

    fs = [op(None, lib, cs, w, bytes(d), io.BytesIO) for w, d in ((first, d0), (second, d1))]
    for f in fs:  # fill caches
        f()
    heap = threads.Heap([cs, *cs.typedefs.values(), cs.T], "dissect.cstruct")
    traces = []
    solo = []
    for f in fs:
        r, ev = threads.alone(f, heap, root)
        solo.append(repr(canon(r, lib)))
        traces.append(ev)
    search = threads.Search()
    tried = set()
    try:
        for a, b in ((0, 1), (1, 0)):
            for schedule in search.models(heap, traces[a], traces[b], budget):
                schedule = [(a if w == 0 else b, n) for w, n in schedule]
                tried.add(tuple(schedule))
                turns = threads.Turns(schedule, root)
                res = turns.run(fs)
                if res is None:
                    return "the threads do not finish", schedule
                got = [repr(canon(r, lib)) for r in res]
                if got != solo:
                    k = 0 if got[0] != solo[0] else 1
                    (code, line), *_ = traces[a][schedule[0][1]]
                    return f"thread {k} gets {got[k][:150]} instead of {solo[k][:150]}; thread {a} is interrupted before {os.path.basename(code.co_filename)}:{line} (line event {schedule[0][1]}), thread {b} runs {schedule[1][1]} lines", schedule
    finally:
        if stats is not None:
            stats.queries += search.queries
            stats.solver_s += search.seconds
    return (None, len(tried), any(e[3] for t in traces for e in t))


def distinct(env, a, b):
    """A model of the path, with the bytes of the threads as different from each other and from zero as the path allows."""
    m = env.ctx.get_model()
    have = True
    for x, y in zip(env.els(a), env.els(b)):
        for c in (b_not(b_eq(byte_it(x), byte_it(y))), b_not(b_eq(byte_it(x), 0)), b_not(b_eq(byte_it(y), 0))):
            c = b_and(have, c)
            if c is True or c is False:
                continue
            n = env.ctx.feasible(core.zb(c))
            if n is not False and n is not None:
                m = env.ctx.model if n is True else n
                have = c
    return m


def concurrent(env, name, first, seconds, compiled, budget):
    text, n = DEFS[name]
    second = env.choice("second", seconds)
    env.tag = f"{first}|{second}"
    rest = bytes(range(1, 1 + REST.get(name, 0)))
    data = [env.bytes(f"data{i}", n) for i in range(2)]
    cs = env.load(text, compiled=compiled, pointer="uint8")
    results = []
    for w, d in zip((first, second), data):
        r = op(env, env.lib, cs, w, d + rest, env.stream)()
        results.append(r)
        env.observe(f"thread {len(results)}", env.canon(r))
        x = r[0] if type(r[0]) is tuple else r
        env.reach("failed" if x[0] == "x" else {"parse": "parsed", "dump": "dumped", "deref": "dereferenced"}.get(w, "parsed"))
    # one representative of the path
    if env.sym:
        m = distinct(env, *data)
        if m is None:
            return
        env.ctx.model = m
        inputs = env.ctx.input_values(m)
        d = [bytes(inputs[f"data{i}"]) + rest for i in range(2)]
        saved, core.CUR = core.CUR, None
        try:
            found = races(text, compiled, first, second, *d, budget, env.ctx.stats)
        finally:
            core.set_cur(saved)
    else:
        d = [bytes(x) + rest for x in data]
        found = races(text, compiled, first, second, *d, budget, None)
    env.check(found[0] is None, "a thread gets another result than alone", lambda: f"{name}, {first} {d[0].hex()} with {second} {d[1].hex()}: {found[0]}")
    if found[0] is None and found[1] == 0:
        env.reach("independent")


def jobs(tier, lib):
    quick = tier == "quick"
    for k, name in enumerate(DEFS):
        ops = [o for o in OPS if not (o in ("dump", "both") and "dynamic union" == name)] + (["deref"] if "pointer" in name else [])
        for i, o in enumerate(ops):
            for c in (False, True):
                if quick and c != bool((i + k) % 2) and o != "parse":
                    continue
                yield Job(concurrent, {"name": name, "first": o, "seconds": ops[: i + 1] if o != "deref" or not quick else ["parse", "deref"], "compiled": c, "budget": 24 if quick else 200}, cost=20)
