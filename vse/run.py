"""Explorer, native replay, worker pool, evidence and command line."""

from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import random
import sys
import time
import traceback

import z3

from . import core, load
from .canon import evaluate
from .core import Budget, CheckFailed, Ctx, Gap, Nondet, PathAbort, Stats
from .env import Env, NativeAbort

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = 4  # sys.monitoring tool id


class Job:
    __slots__ = ("budget", "cost", "fn", "name", "params")

    def __init__(self, fn, params=None, name=None, budget=None, cost=1):
        self.fn = fn
        self.params = params or {}
        self.name = name or f"{fn.__name__}({', '.join(f'{k}={v}' for k, v in self.params.items())})"
        self.budget = budget
        self.cost = cost


LIMITS = {
    "quick": {"solver_ms": 10000, "path_s": 20, "job_s": 30, "total_s": 200, "job_paths": 4000, "split_cap": 300, "native": 400, "native_first": 3, "native_every": 4},
    "thorough": {"solver_ms": 60000, "path_s": 120, "job_s": 600, "total_s": 3600, "job_paths": 200000, "split_cap": 600, "native": 4000, "native_first": 100, "native_every": 2},
}


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as fh:
        return {
            e["key"]: e["description"] for e in json.load(fh)["findings"] if e["property"] == prop and e["status"] == "open"
        }


# --------------------------------------------------------------------------------------------------------------
# one job
# --------------------------------------------------------------------------------------------------------------

_SEEN = set()


def _on_start(code, _off):
    fn = code.co_filename
    if fn.startswith(_PKGDIR):
        _SEEN.add(f"{fn[len(_PKGDIR):].lstrip('/')}:{code.co_qualname}")
    elif fn.startswith("<"):
        _SEEN.add(f"generated:{code.co_qualname}")
    return sys.monitoring.DISABLE


_PKGDIR = os.path.join(load.REPO, "dissect")


def track_functions():
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "vse")
        m.register_callback(TOOL, m.events.PY_START, _on_start)
        m.set_events(TOOL, m.events.PY_START)


def _alarm(_s, _f):
    raise Budget("path time")


_native_state = None


def native():
    global _native_state
    if _native_state is None:
        lib = load.native_lib()
        _native_state = load.NativeState(lib)
        _native_state.snapshot()
    _native_state.restore()
    return _native_state.lib


def run_native(fn, params, inputs, known):
    """Runs the harness on the unmodified package. -> (outcome, label, detail, env)"""
    lib = native()
    env = Env(lib, None, inputs, known)
    env.reset = _native_state.restore
    saved, core.CUR = core.CUR, None
    try:
        fn(env, **params)
        return "ok", None, None, env
    except CheckFailed as e:
        return "fail", e.label, e.detail, env
    except NativeAbort:
        return "abort", None, None, env
    except Gap as e:
        return "gap", str(e), None, env
    except Exception as e:  # noqa: BLE001
        if not _in_package(e):
            return "harness", f"{type(e).__name__}", _short(e), env
        return "fail", f"unexpected {type(e).__name__}", _short(e), env
    finally:
        core.set_cur(saved)


def _in_package(e):
    """Did the exception come from the code under test (and not from the harness or the reference)?"""
    return any(f.filename.startswith(_PKGDIR) or f.filename.startswith("<compiled") for f in traceback.extract_tb(e.__traceback__))


def _short(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-4:])
    return f"{type(e).__name__}: {str(e)[:200]} [{where}]"


def explore(L, mod, fname, params, name, known, limits, deadline):
    """Explores one harness instance; returns a plain dict."""
    fn = getattr(mod, fname)
    st = Stats()
    out = {
        "name": name,
        "violations": [],
        "unconfirmed": [],
        "known": {},
        "samples": [],
        "reached": set(),
        "complete": True,
        "gaps": [],
        "mismatches": [],
    }
    stack = [[]]
    t_end = min(deadline, time.monotonic() + limits["job_s"])
    mark = set(_SEEN)
    sys.monitoring.restart_events()
    _SEEN.clear()
    n_native = 0
    per_tag = {}
    lib = L.get()
    while stack:
        if time.monotonic() > t_end or st.paths + st.pruned >= limits["job_paths"]:
            out["complete"] = False
            out["left"] = len(stack)
            break
        prefix = stack.pop()
        L.restore()
        ctx = Ctx(prefix, st, limits)
        core.set_cur(ctx)
        env = Env(lib, ctx, None, known)
        env.reset = L.restore
        outcome, cand = "ok", None
        signal.setitimer(signal.ITIMER_REAL, limits["path_s"])
        try:
            fn(env, **params)
            model = ctx.get_model()
            if model is None:
                outcome = "abort" if not ctx.incomplete else "gap"
        except PathAbort:
            outcome = "abort"
        except CheckFailed as e:
            outcome, cand = "fail", (e.label, e.inputs)
        except (Gap, Nondet) as e:
            outcome = "gap"
            out["gaps"].append(f"{type(e).__name__}: {e} {_where(e)}")
        except Budget as e:
            outcome = "gap"
            out["gaps"].append(f"Budget: {e}")
        except RecursionError:
            outcome = "gap"
            out["gaps"].append("RecursionError")
        except z3.Z3Exception as e:
            outcome = "gap"
            out["gaps"].append(f"z3: {e}")
        except Exception as e:  # noqa: BLE001
            m = None
            try:
                m = ctx.get_model()
            except BaseException:  # noqa: BLE001
                pass
            outcome = "fail" if m is not None else "gap"
            cand = (f"unexpected {type(e).__name__}", ctx.input_values(m) if m is not None else None)
            out["gaps"].append(_short(e)) if m is None else None
            env.note(_short(e))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        out["reached"].update(env.reached)
        for i in range(len(prefix), len(ctx.trace)):
            alts = ctx.trace[i][1]
            if alts:
                base = [d for d, _ in ctx.trace[:i]]
                for a in reversed(alts):
                    stack.append([*base, a])
        if ctx.incomplete or outcome == "gap":
            out["complete"] = False
            st.gaps += 1
        if outcome == "abort":
            st.pruned += 1
            continue
        st.paths += 1
        if env.tag is not None:
            out.setdefault("by", {})[env.tag] = out.setdefault("by", {}).get(env.tag, 0) + 1
        for key, (label, inputs) in env.known_hits.items():
            if key not in out["known"]:
                o = run_native(fn, params, inputs, known)
                if key in o[3].known_hits:
                    out["known"][key] = {"label": label, "inputs": inputs}
        if outcome == "ok":
            k = per_tag[env.tag] = per_tag.get(env.tag, 0) + 1
            if n_native < limits["native"] and (k <= limits["native_first"] or k % limits["native_every"] == 0):
                n_native += 1
                inputs = ctx.input_values(model)
                o, label, detail, nenv = run_native(fn, params, inputs, known)
                if o == "fail":
                    out["violations"].append({"label": label, "inputs": inputs, "detail": detail, "notes": nenv.notes, "via": "witness"})
                else:
                    a = [(n, evaluate(c, ctx, model)) for n, c in env.obs]
                    b = [(n, evaluate(c, None, None)) for n, c in nenv.obs]
                    if o == "ok" and a == b:
                        st.validated += 1
                    else:
                        st.mismatch += 1
                        if len(out["mismatches"]) < 5:
                            diff = next(((x, y) for x, y in zip(a, b) if x != y), (len(a), len(b)))
                            out["mismatches"].append({"inputs": inputs, "native": o, "diff": repr(diff)[:600], "notes": nenv.notes})
                if len(out["samples"]) < 2:
                    out["samples"].append({"job": name, "inputs": _json(inputs), "outcome": [list(x) for x in a[:3]] if o != "fail" else o})
        elif outcome == "fail" and cand[1] is not None:
            o, label, detail, nenv = run_native(fn, params, cand[1], known)
            rec = {"label": cand[0], "inputs": cand[1], "detail": detail, "notes": nenv.notes, "via": "solver"}
            if o == "fail":
                rec["label"] = label
                out["violations"].append(rec)
            else:
                rec["native"] = o
                rec["notes"] = nenv.notes + env.notes[-1:]
                out["complete"] = False
                if len(out["unconfirmed"]) < 5:
                    out["unconfirmed"].append(rec)
        if len(out["violations"]) >= 3:
            out["complete"] = False
            break
    st.functions = set(_SEEN)
    _SEEN.update(mark)
    core.set_cur(None)
    out["stats"] = st
    out["gaps"] = sorted(set(out["gaps"]))[:8]
    return out


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-5:])


def _json(x):
    if isinstance(x, dict):
        return {k: _json(v) for k, v in x.items()}
    return x


# --------------------------------------------------------------------------------------------------------------
# worker pool
# --------------------------------------------------------------------------------------------------------------


def _worker(conn, L, mod, jobs, known, limits, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    track_functions()
    while True:
        try:
            i = conn.recv()
        except EOFError:
            return
        if i is None:
            return
        j = jobs[i]
        lim = dict(limits)
        if j.budget:
            lim["job_s"] = j.budget
        t0 = time.monotonic()
        try:
            r = explore(L, mod, j.fn.__name__, j.params, j.name, known, lim, deadline)
        except BaseException as e:  # noqa: BLE001
            r = {"name": j.name, "error": _short(e) if isinstance(e, Exception) else repr(e)}
        r["wall"] = time.monotonic() - t0
        try:
            conn.send((i, r))
        except Exception as e:  # noqa: BLE001
            try:
                conn.send((i, {**r, "unconfirmed": [{"label": x["label"]} for x in r["unconfirmed"]]}))
            except Exception:  # noqa: BLE001
                conn.send((i, {"name": j.name, "error": f"send: {e}", "wall": 0}))


def interleaved(jobs):
    """Expensive jobs first, but every harness gets its share of whatever time there is, and no configuration goes last."""
    mixed = list(range(len(jobs)))
    random.Random(len(jobs)).shuffle(mixed)
    groups = {}
    for i in sorted(mixed, key=lambda i: -jobs[i].cost):
        groups.setdefault(jobs[i].fn.__name__, []).append(i)
    return [i for _, i in sorted((k / len(g), i) for g in groups.values() for k, i in enumerate(g))]


def run_jobs(L, mod, jobs, known, limits, procs, verbose=False, stop_on=1):
    t0 = time.monotonic()
    deadline = t0 + limits["total_s"]
    order = interleaved(jobs)
    pending = list(reversed(order))
    ctx = mp.get_context("fork")
    workers = {}
    results = [None] * len(jobs)

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, L, mod, jobs, known, limits, deadline), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None, 0]
        return a

    def feed(c):
        if pending and time.monotonic() < deadline:
            i = pending.pop()
            workers[c][1:] = [i, time.monotonic()]
            c.send(i)
            return True
        workers[c][1] = None
        return False

    for _ in range(min(procs, len(jobs))):
        feed(spawn())
    nviol = 0
    while any(w[1] is not None for w in workers.values()):
        busy = [c for c, w in workers.items() if w[1] is not None]
        for c in mp.connection.wait(busy, timeout=1):
            i = workers[c][1]
            try:
                i, r = c.recv()
            except (EOFError, OSError):
                r = {"name": jobs[i].name, "error": "worker died", "wall": 0}
                results[i] = r
                workers.pop(c)[0].join(1)
                feed(spawn())
                continue
            results[i] = r
            if verbose:
                show(r)
            nviol += len(r.get("violations", ()))
            feed(c)
        if nviol >= stop_on:
            break
        now = time.monotonic()
        grace = limits["job_s"] + 2 * limits["solver_ms"] / 1000 + limits["path_s"] + 20
        for c, w in list(workers.items()):
            if w[1] is not None and now - w[2] > grace + (jobs[w[1]].budget or 0):
                w[0].kill()
        if now > deadline + 20:
            break
    for c, w in workers.items():
        w[0].kill()
        c.close()
    for w in workers.values():
        w[0].join(2)
    return results, time.monotonic() - t0


def show(r):
    if not (r.get('error') or r['gaps'] or r['mismatches'] or r['unconfirmed'] or r['violations'] or not r['complete']):
        return
    if "error" in r:
        print(f"  {r['name']}: ERROR {r['error']}")
        return
    s = r["stats"]
    print(
        f"  {r['name'][:110]}: {s.paths}p {s.pruned}x {s.forks}f q={s.queries} a={s.asserts}/{s.assert_queries} "
        f"ok={s.validated} mis={s.mismatch} {'' if r['complete'] else 'PARTIAL '}{r['wall']:.1f}s {sorted(r['reached'])}"
    )
    for k in r["known"]:
        print("      known", k)
    for g in r["gaps"]:
        print("      gap", g)
    for m in r["mismatches"][:2]:
        print("      mismatch", m)
    for u in r["unconfirmed"][:2]:
        print("      unconfirmed", repr(u)[:400])
    for v in r["violations"][:2]:
        print("      VIOL", repr(v)[:400])


# --------------------------------------------------------------------------------------------------------------
# command line
# --------------------------------------------------------------------------------------------------------------


def summary(jobs, results):
    """Development view: one line per kind of event."""
    ev = {}
    for j, r in zip(jobs, results):
        if r is None or "error" in r:
            ev.setdefault(("error", "not run" if r is None else r["error"][:150]), []).append((j, ""))
            continue
        for k in ("violations", "unconfirmed"):
            for v in r[k]:
                ev.setdefault((k, v["label"]), []).append((j, f"{v.get('detail')} {v.get('notes', [])[-1:]} {v.get('inputs')}"))
        for g in r["gaps"]:
            ev.setdefault(("gap", g[:150]), []).append((j, ""))
        for m in r["mismatches"]:
            ev.setdefault(("mismatch", ""), []).append((j, f"{m['native']} {m['diff']}"))
        if not r["complete"] and not r["violations"] and not r["unconfirmed"] and not r["gaps"]:
            ev.setdefault(("partial", ""), []).append((j, f"{r['stats'].paths} paths, {r.get('left')} left"))
    for (k, lab), hits in list(ev.items())[:40]:
        names = list(dict.fromkeys(j.name for j, _ in hits))
        print(f"** {k}: {lab} x{len(hits)} in {len(names)} jobs")
        seen = set()
        for j, d in hits:
            if j.name in seen or len(seen) >= SHOW:
                continue
            seen.add(j.name)
            print(f"     {j.name[:150]} | {d[:260]}")
    cnt = {}
    for j, r in zip(jobs, results):
        if r and "stats" in r:
            for k, v in r.get("by", {}).items():
                cnt[k] = cnt.get(k, 0) + v
    print("paths by:", sorted(cnt.items(), key=lambda x: -x[1])[:40])
    slow = sorted(((r["wall"], j.name) for j, r in zip(jobs, results) if r and "wall" in r), reverse=True)[:4]
    print("slowest:", [(round(w, 1), n[:70]) for w, n in slow])


SHOW = int(os.environ.get("VSE_SHOW", "4"))


def replay_file(path):
    with open(path) as fh:
        rec = json.load(fh)
    mod = importlib.import_module(f"checks.{rec['property'].lower()}")
    from . import env as _env

    _env.TIER = rec.get("tier", "quick")
    o, label, detail, env = run_native(getattr(mod, rec["harness"]), rec["params"], rec["inputs"], known_findings(rec["property"]))
    for n in env.notes:
        print(f"  {n}")
    print(f"  inputs: {rec['inputs']}")
    if o == "fail":
        print(f"  reproduced: {label}\n  {detail}")
        return 1
    print(f"  not reproduced ({o})")
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", help="only jobs whose name contains this")
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--summary", "-s", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--total", type=float)
    a = ap.parse_args(argv)
    if a.replay:
        return replay_file(a.replay)
    t0 = time.monotonic()
    os.environ["VERIF_TIER"] = a.tier
    from . import env as _env

    _env.TIER = a.tier
    prop = a.property.upper()
    seed = int(os.environ.get("VERIF_SEED") or 0)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    limits = {**LIMITS[a.tier], **getattr(mod, "LIMITS", {}).get(a.tier, {})}
    if a.total:
        limits["total_s"] = a.total
    known = known_findings(prop)
    evdir = os.path.join(ROOT, "evidence")
    repdir = os.path.join(evdir, "replays")
    os.makedirs(repdir, exist_ok=True)
    # a package that cannot be loaded is a broken build, not a violation of this property
    try:
        L = load.Lib()
        lib = L.get()
        L.snapshot()
        native()
        jobs = list(mod.jobs(a.tier, lib))
        broken = None
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        L, jobs, broken = None, [], _short(e)
    if a.jobs:
        jobs = [j for j in jobs if a.jobs in j.name]
    results, wall = run_jobs(L, mod, jobs, known, limits, a.procs, a.verbose, 10**9 if a.all else 1)
    if broken:
        print(f"{prop}: not decided, the package could not be loaded: {broken}")
    st = Stats()
    viols, unconf, gaps, mism, samples, reached, kn, partial, errors = [], [], [], [], [], {}, {}, [], []
    for j, r in zip(jobs, results):
        if r is None:
            partial.append(f"{j.name}: not run")
            continue
        if "error" in r:
            errors.append(f"{r['name']}: {r['error']}")
            continue
        st.merge(r["stats"])
        for v in r["violations"]:
            viols.append((j, v))
        unconf += [{"job": j.name, **u} for u in r["unconfirmed"]]
        gaps += [f"{j.name}: {g}" for g in r["gaps"]]
        mism += [{"job": j.name, **m} for m in r["mismatches"]]
        samples += r["samples"]
        for x in r["reached"]:
            reached[x] = reached.get(x, 0) + 1
        for k, v in r["known"].items():
            kn.setdefault(k, (j, v))
        if not r["complete"]:
            partial.append(f"{j.name}: {r.get('left', '')} left" if "left" in r else f"{j.name}: inconclusive path")
    for old in os.listdir(repdir):
        if old.startswith(prop + "-"):
            os.unlink(os.path.join(repdir, old))
    confirmed = []
    for n, (j, v) in enumerate(viols[: 40 if a.all else 4]):
        path = os.path.join(repdir, f"{prop}-{n}.json")
        with open(path, "w") as fh:
            json.dump(
                {
                    "property": prop,
                    "harness": j.fn.__name__,
                    "params": j.params,
                    "tier": a.tier,
                    "inputs": v["inputs"],
                    "label": v["label"],
                    "detail": str(v["detail"]),
                    "notes": v["notes"],
                    "command": f"python3-vt -B {ROOT}/run_check.py --replay {path}",
                },
                fh,
                indent=1,
            )
        p = subprocess.run(
            [sys.executable, "-B", os.path.join(ROOT, "run_check.py"), "--replay", path],
            capture_output=True, text=True, timeout=120, check=False,
        )
        if p.returncode == 1 and "reproduced:" in p.stdout:
            confirmed.append((path, j, v))
            if not a.all:
                print(p.stdout.rstrip())
                break
        else:
            unconf.append({"job": j.name, **v, "native": f"fresh process: exit {p.returncode} {p.stdout[-300:]} {p.stderr[-300:]}"})
            os.unlink(path)
    if a.summary:
        summary(jobs, results)
    for k in sorted(kn):
        print(f"KNOWN-FINDING: property={prop} {k}: {known[k]}")
    bounds = getattr(mod, "BOUNDS", "")
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": st.paths,
            "transitions": st.forks,
            "traces_validated_against_impl": st.validated,
            "samples": samples[:: max(1, len(samples) // 12)][:12] or [{"jobs": [j.name for j in jobs[:5]], "broken": broken}],
            "exhaustive": not partial and not errors and not broken,
            "harness_instances": len(jobs),
            "paths_explored": st.paths,
            "paths_infeasible": st.pruned,
            "assertions": st.asserts,
            "assertions_decided_by_solver": st.assert_queries,
            "solver_queries": st.queries,
            "solver_seconds": round(st.solver_s, 2),
            "solver_unknown": st.unknown,
            "case_splits": st.concretised,
            "functions_encoded": sorted(f for f in st.functions if not f.startswith("generated:")),
            "generated_functions_encoded": sorted(f for f in st.functions if f.startswith("generated:"))[:40],
            "bounds": bounds,
            "reachability_witnesses": reached,
            "inconclusive": partial[:60],
            "inconclusive_jobs": len(partial),
            "engine_gaps": gaps[:30],
            "unconfirmed_counterexamples": unconf[:10],
            "witness_mismatches": mism[:10],
            "known_findings_seen": sorted(kn),
            "errors": errors[:20],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", [])
        + [
            "the SMT solver (z3) and the symbolic stand-ins for int/bytes/str/float, BytesIO, struct and re in /verif/vse are right; "
            "the witnesses of at least the first three and a quarter of the other explored paths of every definition are re-run on the unmodified package and compared",
            "an input outside the stated bounds is not covered",
        ],
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(confirmed),
    }
    with open(os.path.join(evdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    missing = [w for w in getattr(mod, "WITNESSES", []) if w not in reached]
    print(
        f"{prop} {a.tier}: {len(jobs)} harness instances, {st.paths} paths ({st.pruned} infeasible), {st.forks} forks, "
        f"{st.asserts} assertions ({st.assert_queries} by solver), {st.queries} queries {st.solver_s:.1f}s, "
        f"{st.validated} witnesses replayed, {st.mismatch} mismatched, {len(partial)} inconclusive, {len(unconf)} unconfirmed, "
        f"{len(errors)} errors, {time.monotonic() - t0:.1f}s"
    )
    if missing:
        print(f"warning: not reached: {missing}")
    for e in errors[:10]:
        print("error:", e)
    for path, j, v in confirmed[: 1 if a.summary else None]:
        print(f"{v['label']}: {v['detail']} ({j.name})"[:600])
        print(f"VIOLATION property={prop} replay={path}")
    return 1 if confirmed else 0
