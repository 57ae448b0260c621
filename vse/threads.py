"""Interleavings of two threads of the real code: shared accesses, an SMT search over schedules, and their replay.

Each thread runs alone once, one source line at a time, while everything both threads can reach (the cstruct object, the
types, the package's modules and their caches) is compared before and after every line: the writes. The lines that name a
written place, or hold the written object, are its accesses. A schedule on which one thread's access can see the other's
write is a model of the constraints in ``Search``; without any, all interleavings are equivalent to running one thread
after the other. Every model is replayed with real threads under a line-level scheduler.
"""

from __future__ import annotations

import collections
import gc
import io
import opcode
import sys
import threading
import time
import types

import z3

ATOMS = (str, bytes, int, float, complex, bool, type(None), type(Ellipsis), type(NotImplemented), types.CodeType, range)
SLOT = (types.MemberDescriptorType,)


class Heap:
    """The mutable objects that can be reached from ``roots`` without leaving the package."""

    def __init__(self, roots, pkg):
        self.pkg = pkg
        self.objs = []
        seen = set()
        todo = list(roots)
        todo += [m.__dict__ for n, m in list(sys.modules.items()) if n == pkg or n.startswith(pkg + ".")]
        while todo:
            o = todo.pop()
            if id(o) in seen or isinstance(o, ATOMS):
                continue
            seen.add(id(o))
            t = type(o)
            if isinstance(o, types.ModuleType):
                continue
            if isinstance(o, type) and not (getattr(o, "__module__", "") or "").startswith(pkg) and "cs" not in o.__dict__:
                continue
            if isinstance(o, dict) and o.get("__name__") in sys.modules and "__spec__" in o and not str(o.get("__name__")).startswith(pkg):
                continue  # globals of another module
            if isinstance(o, types.FrameType) or isinstance(o, threading.Thread):
                continue
            if isinstance(o, (dict, list, set, bytearray, collections.deque, io.BytesIO, types.CellType, type)) or self._inside(t):
                self.objs.append(o)
            if (t.__module__ or "").startswith(pkg) and not isinstance(o, type) and hasattr(o, "__dict__"):
                todo.append(vars(o))
            if isinstance(o, types.FunctionType):
                # its defaults and closure may hold state
                todo += [*(o.__defaults__ or ()), *(o.__kwdefaults__ or {}).values(), *(o.__closure__ or ()), o.__globals__]
                if o.__dict__:
                    todo.append(o.__dict__)
                continue
            if isinstance(o, type):
                todo += list(o.__dict__.values())
                todo += [c for c in o.__mro__]
                continue
            todo += gc.get_referents(o)
        self.keep = seen
        self.state = [self.look(o) for o in self.objs]
        self.views = [o.__dict__ if isinstance(o, type) else o if isinstance(o, (dict, list, set)) else None for o in self.objs]

    @staticmethod
    def _inside(t):
        return (t.__module__ or "").startswith("dissect.cstruct") and any(isinstance(d, SLOT) for c in t.__mro__ for d in c.__dict__.values())

    def look(self, o):
        if isinstance(o, type):
            return dict(o.__dict__)
        if isinstance(o, dict):
            return dict(o)
        if isinstance(o, (list, collections.deque)):
            return list(o)
        if isinstance(o, set):
            return set(o)
        if isinstance(o, bytearray):
            return bytes(o)
        if isinstance(o, io.BytesIO):
            try:
                return o.tell(), o.getvalue()
            except ValueError:
                return None
        if isinstance(o, types.CellType):
            try:
                return [o.cell_contents]
            except ValueError:
                return None
        return [d.__get__(o) if hasattr(o, d.__name__) else None for c in type(o).__mro__ for d in c.__dict__.values() if isinstance(d, SLOT)]

    def changes(self):
        """What changed since the last call: a set of (object number, key or None)."""
        out = None
        for i, (o, was) in enumerate(zip(self.views, self.state)):
            if o is None:
                now = self.look(self.objs[i])
                if now == was:
                    continue
                new = {(i, None)}
            else:
                # identical values are equal, without a call to their __eq__
                try:
                    if o == was:
                        continue
                except Exception:  # noqa: BLE001
                    pass
                now = self.look(self.objs[i])
                new = {(i, k) for k in {**was, **now} if was.get(k, was) is not now.get(k, was)} if isinstance(now, dict) else {(i, None)}
            self.state[i] = now
            out = (out or set()) | new
        return out or ()


def names_of(code):
    """line -> (attribute and global names, local names) it uses."""
    out = {}
    line = None
    import dis

    for ins in dis.get_instructions(code):
        if ins.positions and ins.positions.lineno:
            line = ins.positions.lineno
        a, b = out.setdefault(line, (set(), set()))
        if ins.opcode in opcode.hasname:
            a.add(ins.argval)
        elif ins.opcode in opcode.haslocal or ins.opcode in opcode.hasfree:
            b.update(ins.argval if isinstance(ins.argval, tuple) else (ins.argval,))
    return out


class Tracer:
    """Calls ``step(frame)`` before every line of the package and of the code it generates."""

    def __init__(self, step, root):
        self.step, self.root = step, root
        self.files = {}

    def ours(self, code):
        f = code.co_filename
        r = self.files.get(f)
        if r is None:
            r = self.files[f] = f.startswith(self.root) or f.startswith("<compiled") or f == "<string>"
        return r

    def __call__(self, frame, event, arg):
        if not self.ours(frame.f_code):
            return None
        if event == "line":
            self.step(frame)
        return self


def alone(fn, heap, root):
    """Runs ``fn`` and records its lines: [(place, line names, held objects, writes)]."""
    events = []
    cache = {}
    number = {id(o): i for i, o in enumerate(heap.objs)}
    heap.changes()

    def step(frame):
        if events:
            events[-1][3] |= set(heap.changes())
        names = cache.get(frame.f_code)
        if names is None:
            names = cache[frame.f_code] = names_of(frame.f_code)
        attrs, local = names.get(frame.f_lineno, ((), ()))
        held = set()
        if local:
            loc = frame.f_locals
            held = {number[id(loc[n])] for n in local if n in loc and id(loc[n]) in number}
        events.append([(frame.f_code, frame.f_lineno), attrs, held, set()])

    old = sys.gettrace()
    sys.settrace(Tracer(step, root))
    try:
        r = fn()
    finally:
        sys.settrace(old)
    if events:
        events[-1][3] |= set(heap.changes())
    return r, events


def accesses(heap, events, place):
    """The lines that may read or write a place."""
    i, key = place
    o = heap.objs[i]
    named = set()
    if isinstance(key, str):
        named.add(key)
    if not isinstance(o, type):
        # by which names is the object itself known
        for p, s in zip(heap.objs, heap.state):
            if isinstance(s, dict):
                named |= {k for k, v in s.items() if v is o and isinstance(k, str)}
    return [n for n, (_, attrs, held, writes) in enumerate(events) if place in writes or i in held and key is None or not named.isdisjoint(attrs)]


class Search:
    """Schedules on which one thread sees what another wrote, as models of a z3 formula.

    Thread 0 runs its lines before ``cut``, thread 1 those in [0, stop), then thread 0 the rest, then thread 1 the rest:
    a write of thread 1 before ``stop`` lies between an access of thread 0 before ``cut`` (or its start) and one after.
    """

    def __init__(self):
        self.queries = 0
        self.seconds = 0.0

    def pairs(self, heap, a, b):
        """(last access before, access after, write) triples of thread 0's lines and a line of thread 1."""
        out = []
        for place in {w for e in b for w in e[3]}:
            reads = accesses(heap, a, place)
            writes = [n for n, e in enumerate(b) if place in e[3]]
            for w in writes:
                for r in reads:
                    out.append((place, r, w))
        return out

    def models(self, heap, a, b, budget):
        pairs = self.pairs(heap, a, b)
        cut, stop = z3.Ints("cut stop")
        s = z3.Solver()
        # a context switch before ``cut`` of thread 0, after line stop-1 of thread 1
        s.add(cut >= 0, cut < len(a), stop >= 1, stop <= len(b))
        s.add(z3.Or(*[z3.And(cut <= r, stop > w) for _, r, w in pairs]) if pairs else z3.BoolVal(False))
        # switching at another line only matters if an access lies between: the line right before an access, or after a write
        s.add(z3.Or(*[cut == r for r in sorted({x for _, r, _ in pairs for x in (r, r + 1) if x < len(a)})]))
        s.add(z3.Or(stop == len(b), *[stop == w + 1 for w in sorted({w for _, _, w in pairs})]))
        while budget > 0:
            t = time.perf_counter()
            r = s.check()
            self.seconds += time.perf_counter() - t
            self.queries += 1
            if r != z3.sat:
                return
            m = s.model()
            c, e = m.eval(cut).as_long(), m.eval(stop).as_long()
            budget -= 1
            yield [(0, c), (1, e), (0, None), (1, None)]
            s.add(z3.Not(z3.And(cut == c, stop == e)))


class Turns:
    """Two real threads that take turns line by line, following a schedule of (thread, number of lines or None)."""

    def __init__(self, schedule, root, patience=0.25):
        self.todo = list(schedule)
        self.lock = threading.Condition()
        self.done = [False, False]
        self.root, self.patience = root, patience
        self.results = [None, None]
        self.left = None
        self.stuck = False
        self._next()

    def _next(self):
        while self.todo:
            who, n = self.todo.pop(0)
            if not self.done[who] and n != 0:
                self.who, self.left = who, n
                return
        self.who = 0 if not self.done[0] else 1
        self.left = None

    def step(self, me):
        with self.lock:
            if self.who == me and self.left == 0:
                self._next()
                self.lock.notify_all()
            while self.who != me and not self.done[1 - me]:
                if not self.lock.wait(self.patience) and time.monotonic() - self.last > self.patience:
                    # the other thread may wait for a lock that this one holds
                    self.stuck = True
                    self.who, self.left = me, None
            self.last = time.monotonic()
            if self.left is not None and self.who == me:
                self.left -= 1

    def body(self, me, fn):
        tr = Tracer(lambda frame: self.step(me), self.root)
        sys.settrace(tr)
        try:
            r = fn()
        finally:
            sys.settrace(None)
            with self.lock:
                self.done[me] = True
                if self.who == me:
                    self._next()
                self.lock.notify_all()
        self.results[me] = r

    def run(self, fns):
        self.last = time.monotonic()
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(20)
        if any(t.is_alive() for t in ts):
            return None
        return self.results
