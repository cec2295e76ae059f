"""Small multi-threaded programs, their execution under the scheduler, and all their serial executions.

A program is a literal dict:
  class, start (one plain content per file), objects (file index of each object),
  handles ([object, path]), threads ([[(handle, operation, args), ...], ...]),
  ctx (None | "cls" | "obj"), cap (None | int), wc (write_concern)
A handle is an index into handles, or "slot": the node the last "nav" of the thread returned,
or the object its last "new" created.
"""
import ast
import contextlib
import itertools
import json
import os
import shutil
import time

from . import sched
from .base import Violation
from .bufworld import reset_buffer
from .ops import OPS, dec
from .resources import spec_by_name
from .values import clone, norm

POPS = {"d.pop", "d.pop2", "d.popitem", "l.pop", "l.pop1"}
SKIPPED = ("skipped",)


def raw(x):
    """Content of a synced node without running library code."""
    from synced_collections import SyncedCollection

    if isinstance(x, SyncedCollection):
        x = x._data if isinstance(getattr(x, "_data", None), (dict, list)) else x()
    if isinstance(x, dict):
        return {k: raw(v) for k, v in x.items()}
    if isinstance(x, list):
        return [raw(v) for v in x]
    return x


def shallow(x):
    """Synced nodes become markers: their content is another read."""
    from synced_collections import SyncedCollection

    if isinstance(x, SyncedCollection):
        return "<dict node>" if hasattr(x, "items") else "<list node>"
    if isinstance(x, (list, tuple)):
        return [shallow(v) for v in x]
    if isinstance(x, dict):
        return {k: shallow(v) for k, v in x.items()}
    return x


def unordered(name, r):
    """The order of keys is not part of a result."""
    if name in ("d.iter", "d.keys", "d.values", "d.items"):
        return sorted(r, key=key)
    if name in ("d.str", "d.repr", "l.str", "l.repr"):
        try:
            return ast.literal_eval(r)
        except (ValueError, SyntaxError):
            return r
    return r


def key(x):
    """Canonical, type-strict, independent of key order."""
    return json.dumps(x, sort_keys=True, default=repr)


_serial = itertools.count()


class World:
    """The objects of one execution."""

    def __init__(self, prog, scratch):
        self.prog = prog
        self.spec = spec_by_name(prog["class"])
        self.dir = scratch
        self.files = []
        for i, c in enumerate(prog["start"]):
            # a new name every time, so that locks are created, too
            fn = os.path.join(scratch, f"f{i}-{next(_serial)}.json")
            self.files.append(fn)
            if c is not None:
                with open(fn, "w") as f:
                    json.dump(c, f)
        classes = prog.get("classes") or [prog["class"]] * len(prog["objects"])
        toggle = prog.get("toggle")
        if toggle:
            # switched off and on again, before or after the objects are made
            for c in {prog["class"], *classes}:
                spec_by_name(c).cls.disable_multithreading()
        if toggle == "before":
            self.enable(classes)
        self.objects = [self.make(i, spec_by_name(c)) for i, c in zip(prog["objects"], classes)]
        if toggle == "after":
            self.enable(classes)
        self.handles = []
        for o, path in prog["handles"]:
            h = self.objects[o]
            for k in path:
                h = h[k]
            self.handles.append(h)
        self.nested = any(path for _, path in prog["handles"])
        self.results = {}
        self.stamps = {}
        self.clock = itertools.count()
        self.slots = [None] * len(prog["threads"])

    def enable(self, classes):
        for c in {self.prog["class"], *classes}:
            spec_by_name(c).cls.enable_multithreading()

    def enter(self):
        self.stack = contextlib.ExitStack()
        ctx = self.prog.get("ctx")
        if ctx == "cls":
            cap = self.prog.get("cap")
            self.stack.enter_context(self.spec.cls.buffer_backend(cap) if cap is not None else self.spec.cls.buffer_backend())
        elif ctx == "obj":
            for o in self.objects:
                self.stack.enter_context(o.buffered)

    def exit(self):
        self.stack.close()

    def step(self, t, i):
        """Operation i of thread t."""
        h, name, args = self.prog["threads"][t][i]
        start = next(self.clock)
        if name == "new":
            target = None
        elif h == "slot":
            target = self.slots[t]
            if target is None:
                self.results[t, i] = SKIPPED
                self.stamps[t, i] = (start, next(self.clock))
                return
        else:
            target = self.handles[h]
        try:
            if name == "nav":
                r = target
                for k in args:
                    r = r[k]
                self.slots[t] = r if hasattr(r, "reset") else None
                res = ("ok", shallow(r))
            elif name == "new":
                self.slots[t] = self.make(args[0])
                res = ("ok", "new")
            elif name == "call":
                res = ("ok", shallow(EXTRA[args[0]](self, target, *args[1:])))
            else:
                r = OPS[name][2](target, *[dec(a) for a in clone(list(args))])
                if name in POPS and not self.nested:
                    r = raw(r) if not isinstance(r, tuple) else [raw(e) for e in r]
                res = ("ok", unordered(name, shallow(r)))
        except sched.MainBlocked:
            raise
        except Exception as e:  # noqa: BLE001
            res = ("err", type(e).__name__)
            self.last_error = e
            if h != "slot" and name == "nav":
                self.slots[t] = None
        self.results[t, i] = res
        self.stamps[t, i] = (start, next(self.clock))

    def make(self, i, spec=None):
        return (spec or self.spec).cls(filename=self.files[i], write_concern=self.prog.get("wc", False))

    def close(self):
        for fn in self.files:
            with contextlib.suppress(FileNotFoundError):
                os.unlink(fn)
            for cls in {type(o) for o in self.objects} | {self.spec.cls}:
                if isinstance(getattr(cls, "_locks", None), dict):
                    cls._locks.pop(fn, None)

    def contents(self):
        out = []
        for fn in self.files:
            try:
                with open(fn, "rb") as f:
                    out.append(json.loads(f.read()))
            except FileNotFoundError:
                out.append("<missing>")
            except ValueError as e:
                out.append(f"<unparsable: {e}>")
        return out

    def size(self):
        return self.spec.cls.get_current_buffer_size() if self.spec.buffered else 0


EXTRA = {}


class Explorer:
    """Schedules of one program and their comparison with its serial executions."""

    def __init__(self, prog, scratch, sch):
        self.prog = prog
        self.dir = scratch
        os.makedirs(scratch, exist_ok=True)
        self.sch = sch
        self.serial = {}
        self.n = [len(t) for t in prog["threads"]]
        self.order0 = [(t, i) for t, n in enumerate(self.n) for i in range(n)]

    def close(self):
        sched.free_locks()
        sched.BAD_RELEASES.clear()
        for name in {self.prog["class"], *self.prog.get("classes", ())}:
            cls = spec_by_name(name)
            if cls.buffered:
                reset_buffer(cls.cls)
        shutil.rmtree(self.dir, ignore_errors=True)

    def run_serial(self, order):
        """Outcome of one serial order, in a world of its own."""
        if order in self.serial:
            return self.serial[order]
        w = World(self.prog, self.dir)
        w.enter()
        for t, i in order:
            w.step(t, i)
        w.exit()
        out = self.outcome(w)
        w.close()
        self.serial[order] = out
        return out

    def outcome(self, w):
        return {"results": dict(w.results), "files": w.contents(), "size": w.size(), "stamps": dict(w.stamps)}

    def run_scheduled(self, prios, changes):
        """One execution with real threads."""
        w = World(self.prog, self.dir)
        w.enter()

        def job(t):
            def f():
                for i in range(self.n[t]):
                    w.step(t, i)

            return f

        ok = self.sch.run([job(t) for t in range(len(self.n))], prios, changes)
        # the judge may use the scheduler, too
        self.steps, self.switches, self.where = self.sch.step, self.sch.switches, tuple(self.sch.where)
        self.marks, self.inverse = self.sch.marks, self.sch.inversions()
        if not ok:
            what = "; ".join(f"thread {a} waits for the lock of {b} held by {c}" for a, b, c in self.sch.deadlock or [])
            raise Violation(f"deadlock: {what}" if what else "no thread makes progress any more")
        for t in self.sch.tasks:
            if t.error is not None:
                raise RuntimeError(f"thread {t.index}: {t.error!r}")
        if sched.BAD_RELEASES:
            raise Violation(f"lock(s) {sched.BAD_RELEASES[:]} released without being held")
        held = sched.held_locks()
        if held:
            raise Violation(f"lock(s) {[x.where for x in held]} still held after all operations returned")
        try:
            w.exit()
        except sched.MainBlocked as e:
            raise Violation(str(e))
        except Exception as e:  # noqa: BLE001
            if not self.prog.get("classes"):
                raise Violation(f"leaving the context raised {type(e).__name__}: {e}")
        return w

    def orders(self, stamps, ops=None):
        """Serial orders consistent with program order and real time, likely ones first."""
        ops = self.order0 if ops is None else ops
        guess = tuple(sorted(ops, key=lambda o: stamps[o][1]))
        yield guess
        seen = {guess}

        def rec(done, left):
            if not left:
                if done not in seen:
                    yield done
                return
            for o in left:
                t, i = o
                if any(p[0] == t and p[1] < i for p in left):
                    continue
                # something else that ended before this one started must come first
                if any(stamps[p][1] < stamps[o][0] for p in left if p != o):
                    continue
                yield from rec(done + (o,), [p for p in left if p != o])

        yield from rec((), list(ops))


def linearizable(ex, w, results=True):
    """Find a serial order with the same results and files; raises Violation if there is none."""
    got = ex.outcome(w)
    gr, gf = key(sorted(got["results"].items())), key(got["files"])
    tried = 0
    for order in ex.orders(w.stamps):
        want = ex.run_serial(order)
        tried += 1
        if (not results or key(sorted(want["results"].items())) == gr) and key(want["files"]) == gf:
            return tried
    some = [(o, v["results"], v["files"]) for o, v in list(ex.serial.items())[:4]]
    raise Violation(f"no serial order explains results {fmt(got['results'])} and final content {str(got['files'])[:300]}",
                    "\n".join(f"serial {[f'{t}.{i}' for t, i in o]}: {fmt(r)} {str(f)[:300]}" for o, r, f in some))


def explore(w, prog, rng, n, sch, judge, exhaustive=False):
    """Run n schedules of a program; the judge raises Violation."""
    ex = Explorer(prog, w.path("p"), sch)
    try:
        for prios, changes in schedules(rng, ex, n, exhaustive):
            try:
                world = ex.run_scheduled(prios, changes)
                judge(ex, world)
            except Violation as v:
                v.schedule = (prios, changes)
                raise
            world.close()
            w.count("evaluations")
            w.count("steps", ex.steps)
            w.count("preemptions", ex.switches)
            w.sig(prog["class"], prog["threads"], prog["handles"], prog["ctx"], ex.where, tuple(prios))
            w.count("inverse lock orders", bool(ex.inverse))
    finally:
        w.count("waits for locks", sch.contended)
        w.count("threads blocked outside", sch.externals)
        w.count("serial executions", len(ex.serial))
        sch.contended = sch.externals = 0
        ex.close()


_schedulers = {}


def scheduler():
    """One pool of threads per process."""
    return _schedulers.setdefault(os.getpid(), sched.Scheduler())


def conc_share(program, judge, kind=None):
    """The work function of the concurrency checks."""

    def share(w, item):
        name, block, n, k, gran, exhaustive = item
        if time.time() - w.run.t0 > 600:
            # something makes every schedule slow; what was seen so far counts
            w.count("shares left out")
            return
        sched.monitor(gran)
        for j in range(n):
            rng = w.rng(*filter(None, [kind]), name, block, j)
            prog = program(rng, name)
            if w.rng("toggle", name, block, j).random() < 0.12:
                prog["toggle"] = rng.choice(["before", "after"])
            try:
                explore(w, prog, rng, k, scheduler(), judge, exhaustive)
            except Violation as v:
                w.report(f"{v.what} [{name}, context {prog['ctx']}: {describe(prog)}]", v.detail,
                         {"prog": prog, "schedule": getattr(v, "schedule", None), "gran": gran, "kind": kind})
                return
            w.count("programs")
            if len(w.samples) < 2:
                w.sample({"program": describe(prog), "class": name, "last schedule": str(scheduler().where)})

    return share


def conc_shares(run, names, blocks, n=4, k=40):
    """Mostly sampled schedules; some programs with every single preemption."""
    f = 14 if run.tier == "thorough" else 2
    out = []
    for name in names:
        for b in range(f):
            out.append((name, ("all", b), 1, k, "line", True))
    for name in names:
        for b in range(blocks * f):
            out.append((name, b, n, k, "instruction" if b % 4 == 3 else "line", False))
    return out


def conc_replay(prop, data, judge):
    from .base import Run, Worker

    run = Run(prop)
    w = Worker(run, 0, run.scratch)
    sched.monitor(data["gran"])
    ex = Explorer(data["prog"], w.path("p"), scheduler())
    print(describe(data["prog"]))
    try:
        world = ex.run_scheduled(*data["schedule"])
        judge(ex, world)
    except Violation as v:
        print("reproduced:", v.what)
        print(v.detail or "")
        print(f"VIOLATION property={prop} replay=-")
        return 1
    finally:
        ex.close()
    print("not reproduced")
    return 0


def fmt(results):
    return ", ".join(f"{t}.{i}:{r[0]}={str(r[1])[:60] if len(r) > 1 else ''}" for (t, i), r in sorted(results.items()))


def describe(prog):
    def h(x):
        if not isinstance(x, int):
            return str(x)
        o, path = prog["handles"][x]
        return f"o{o}" + "".join(f"[{k!r}]" for k in path)

    return " || ".join("; ".join(f"{h(x)}.{n}{tuple(a)!r:.80}" for x, n, a in t) for t in prog["threads"])


# -- generation -----------------------------------------------------------------
DSTART = {"a": {"x": 1, "y": {"z": 1}}, "l": [1, [2], {"q": 1}], "s": 0}
LSTART = [{"x": 1, "l": [1]}, [1, 2, [3]], 0, 5]


class Gen:
    """Random operations whose values are all different."""

    def __init__(self, rng, attr=False):
        self.rng = rng
        self.attr = attr
        self.n = 100

    def u(self):
        self.n += 1
        return self.n

    def value(self):
        r = self.rng.random()
        if r < 0.55:
            return self.u()
        if r < 0.7:
            return {"x": self.u()}
        if r < 0.85:
            return [self.u()]
        return self.rng.choice([None, "v%d" % self.u(), {}, [], {"x": [self.u()]}])

    def dkey(self, node):
        return self.rng.choice(list(node) + ["n1", "n2"]) if node else "n1"

    def mutator(self, node, names=None):
        """(operation, args) for a node with this content."""
        rng = self.rng
        if isinstance(node, dict):
            name = rng.choice(names or ["d.setitem", "d.setitem", "d.delitem", "d.pop", "d.pop2", "d.popitem", "d.clear", "d.update",
                                        "d.update_kw", "d.setdefault", "d.reset", "d.reset"] + ["d.setattr", "d.delattr"] * self.attr)
            args = {"d.setitem": lambda: [self.dkey(node), self.value()], "d.delitem": lambda: [self.dkey(node)],
                    "d.pop": lambda: [self.dkey(node)], "d.pop2": lambda: [self.dkey(node), self.u()], "d.popitem": list,
                    "d.clear": list, "d.update": lambda: [{self.dkey(node): self.value(), "n3": self.value()}],
                    "d.update_kw": lambda: [{"n1": self.value(), "n4": self.u()}],
                    "d.setattr": lambda: [self.dkey(node), self.value()], "d.delattr": lambda: [self.dkey(node)],
                    "d.setdefault": lambda: [self.dkey(node), self.value()],
                    "d.reset": lambda: [{self.dkey(node): self.value(), "r": self.u()}]}[name]()
        else:
            n = len(node)
            ix = lambda: rng.randrange(-n, n) if n else 0  # noqa: E731
            name = rng.choice(names or ["l.setitem", "l.setslice", "l.delitem", "l.append", "l.append", "l.extend", "l.insert", "l.pop",
                                        "l.pop1", "l.reverse", "l.clear", "l.reset", "l.reset", "l.iadd", "l.remove"])
            args = {"l.setitem": lambda: [ix(), self.value()],
                    "l.setslice": lambda: [("__slice__", rng.randrange(n + 1), rng.randrange(n + 1), None), [self.value()]],
                    "l.delitem": lambda: [ix()], "l.append": lambda: [self.value()],
                    "l.extend": lambda: [[self.value() for _ in range(rng.randrange(3))]],
                    "l.insert": lambda: [ix(), self.value()], "l.pop": list, "l.pop1": lambda: [ix()], "l.reverse": list,
                    "l.clear": list, "l.reset": lambda: [[self.value(), self.u()]], "l.iadd": lambda: [[self.u(), self.value()]],
                    "l.remove": lambda: [rng.choice([x for x in node if isinstance(x, int)] or [0])]}[name]()
            if name == "l.setslice":
                name = "l.setitem"
        return name, args

    def read(self, node):
        rng = self.rng
        if isinstance(node, dict):
            name = rng.choice(["d.getitem", "d.get", "d.len", "d.iter", "d.call", "d.call", "d.eq", "d.contains", "d.keys", "d.values",
                               "d.items", "d.bool", "d.str", "d.repr", "d.get2", "d.ne"])
            args = {"d.getitem": lambda: [self.dkey(node)], "d.get": lambda: [self.dkey(node)],
                    "d.get2": lambda: [self.dkey(node), self.u()], "d.contains": lambda: [self.dkey(node)],
                    "d.eq": lambda: [clone(node)], "d.ne": lambda: [clone(node)]}.get(name, list)()
        else:
            n = len(node)
            ix = lambda: rng.randrange(-n, n) if n else 0  # noqa: E731
            name = rng.choice(["l.getitem", "l.len", "l.iter", "l.call", "l.call", "l.eq", "l.contains", "l.index", "l.count", "l.bool",
                               "l.str", "l.repr", "l.reversed", "l.slice", "l.lt", "l.ne"])
            val = lambda: rng.choice(node) if node else 0  # noqa: E731
            args = {"l.getitem": lambda: [ix()], "l.slice": lambda: [("__slice__", 0, ix(), None)], "l.eq": lambda: [clone(node)],
                    "l.ne": lambda: [clone(node)], "l.lt": lambda: [clone(node)], "l.contains": lambda: [clone(val())],
                    "l.index": lambda: [clone(val())], "l.count": lambda: [clone(val())]}.get(name, list)()
            if name == "l.slice":
                name = "l.getitem"
        return name, args


def node_at(content, path):
    for k in path:
        content = content[k]
    return content


def paths(content, at=()):
    """Paths of all containers."""
    out = [at]
    items = content.items() if isinstance(content, dict) else enumerate(content)
    for k, v in items:
        if isinstance(v, (dict, list)):
            out += paths(v, at + (k,))
    return out


def handles_for(rng, start, objects, n):
    """n random handles, at least half of them roots."""
    out = []
    for _ in range(n):
        o = rng.randrange(len(objects))
        p = () if rng.random() < 0.5 else rng.choice(paths(start[objects[o]]))
        out.append([o, list(p)])
    return out


def schedules(rng, ex, n, exhaustive=False):
    """Yield (prios, changes): serial ones, then single preemptions (many of them at lock operations), then several."""
    k = len(ex.n)
    perm = list(range(k))
    rng.shuffle(perm)
    total, locks, inverse = 2, [], []
    for p in (list(perm), list(reversed(perm))):
        yield p, {}
        total = max(ex.steps, total)
        locks += [(p, s) for s in ex.marks]
        inverse += [(p, s) for s in ex.inverse]
    for p, s in rng.sample(inverse, min(len(inverse), 20)):
        # taken in different orders: these are deadlocks unless a third lock prevents them
        yield list(p), {s: 1}
    if n <= 2:
        return
    singles = list(range(1, total + 1))
    most = 600 if exhaustive else max(1, n // 4)
    if len(singles) > most:
        singles = rng.sample(singles, most)
    for s in singles:
        rng.shuffle(perm)
        yield list(perm), {s: 1}
    most = 200 if exhaustive else max(1, n // 4)
    for p, s in locks if len(locks) <= most else rng.sample(locks, most):
        yield list(p), {s: 1}
    for i in range(n - n // 2):
        d = rng.choice([2, 2, 3, 4])
        if locks and i % 2:
            p, s = rng.choice(locks)
            yield list(p), {**{rng.randint(1, total): i + 2 for i in range(d - 1)}, s: 1}
            continue
        rng.shuffle(perm)
        yield list(perm), {rng.randint(1, total): i + 1 for i in range(d)}
