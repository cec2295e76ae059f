"""C10: no operation leaks a lock; no interleaving deadlocks.

* faults: an operation runs in a thread while a fault is injected (file damaged, rejected value,
  a failing file call, a failing (de)serialization); afterwards no lock may be owned and another
  thread must be able to complete operations.
* programs: threads work on several collections in ways that take several locks; the scheduler
  recognizes deadlocks.
* orders: many such programs, only run serially to see in which order locks are taken; where two
  threads take two locks in different orders, the schedules that make a deadlock of it are run.
* renames: an object is pointed at other files while others keep using the old ones.
"""
from vlib import sched

sched.install()

import contextlib  # noqa: E402
import copy  # noqa: E402
import json  # noqa: E402
import os  # noqa: E402
import shutil  # noqa: E402
import sys  # noqa: E402

from checks.common import *  # noqa: F403,E402
from vlib.base import PKG  # noqa: E402
from vlib import conc  # noqa: E402
from vlib.bufworld import reset_buffer  # noqa: E402
from vlib.ops import OPS, dec  # noqa: E402
from vlib.shim import shim, with_shim  # noqa: E402
from vlib.values import clone  # noqa: E402

RULE = ("distinct (class, context, operation, injected fault) after which lock ownership was inspected and another thread completed "
        "operations, and distinct (program, schedule) run to the end without deadlock")
NAMES = [s + k for s in ("JSON", "JSONAttr", "BufferedJSON", "BufferedJSONAttr", "MemoryBufferedJSON", "MemoryBufferedJSONAttr")
         for k in ("Dict", "List")]


# -- faults ---------------------------------------------------------------------
class Bomb:
    """Iterates a little, then fails."""

    def __init__(self, kind):
        self.kind = kind

    def keys(self):
        yield "bomb1"
        raise RuntimeError("bomb")

    def __getitem__(self, k):
        return 1

    def __iter__(self):
        yield from ([("b", 1)] if self.kind == "pairs" else [1])
        raise RuntimeError("bomb")

    def __len__(self):
        return 3


class BadMapping(dict):
    """A mapping whose items cannot be enumerated."""

    def items(self):
        raise RuntimeError("bad mapping")

    def __iter__(self):
        raise RuntimeError("bad mapping")

    def keys(self):
        raise RuntimeError("bad mapping")


class BadRepr:
    """Not serializable; fails when compared or shown."""

    def __eq__(self, other):
        raise RuntimeError("bad comparison")

    __hash__ = None

    def __repr__(self):
        raise RuntimeError("bad repr")


BAD = {
    "object": object, "badrepr": BadRepr, "intkey": lambda: {1: 2}, "nested": lambda: [{"a": object()}], "dotkey": lambda: {"a.b": 1},
    "bomb": lambda: Bomb("x"), "pairs": lambda: Bomb("pairs"), "badmapping": lambda: BadMapping(a=1), "set": lambda: {1, 2},
    "complex": lambda: 1j, "bytes": lambda: b"x", "huge": lambda: 10 ** 5000, "deep": lambda: deep(2000), "unhashable": lambda: [],
    "self": None, "numpyobj": lambda: __import__("numpy").array([object()]), "numpycomplex": lambda: __import__("numpy").array([1j]),
}


def deep(n):
    x = 1
    for _ in range(n):
        x = [x]
    return x


VALUE_OPS = {
    "dict": ["setitem", "badkey", "update", "update_kw", "reset", "setdefault", "getbad", "delbad", "popbad", "eq", "ctor", "inbad", "setattr"],
    "list": ["setitem", "setslice", "append", "extend", "insert", "reset", "iadd", "remove", "index", "eq", "popbad", "getbad", "ctor", "delbad",
             "lt"],
}


def value_op(obj, node, op, bad):
    d = hasattr(node, "items")
    if op == "setitem":
        node["k" if d else 0] = bad
    elif op == "badkey":
        node[bad] = 1
    elif op == "setattr":
        node.k = bad
    elif op == "update":
        node.update(bad)
    elif op == "update_kw":
        node.update({"ok": 1}, k=bad)
    elif op == "reset":
        node.reset(bad)
    elif op == "setdefault":
        node.setdefault("kk", bad)
    elif op == "getbad":
        node[bad]
    elif op == "delbad":
        del node[bad]
    elif op == "popbad":
        node.pop(bad)
    elif op == "inbad":
        bad in node
    elif op == "eq":
        node == bad
    elif op == "lt":
        node < bad
    elif op == "ctor":
        type(obj)(filename=obj.filename, data=bad)
    elif op == "setslice":
        node[0:1] = bad
    elif op == "append":
        node.append(bad)
    elif op == "extend":
        node.extend(bad)
    elif op == "insert":
        node.insert(0, bad)
    elif op == "iadd":
        node += bad
    elif op == "remove":
        node.remove(bad)
    elif op == "index":
        node.index(bad)


DAMAGE = {
    "truncated": b'{"a": {"x": 1', "empty": b"", "binary": b"\xff\xfe\x00", "garbage": b"not json", "number": b"5", "null": b"null",
    "string": b'"x"', "otherdict": b'{"other": 1}', "otherlist": b"[1]", "badkeys": b'{"a.b": {"c.d": 1}}', "dir": None, "loop": None,
    "notdir": None,
}


class Setting:
    """Two files, two objects on the first one, one on the second."""

    def __init__(self, w, d):
        self.d = d
        self.spec = spec_by_name(d["class"])
        self.dir = w.path("f")
        os.mkdir(self.dir)
        os.mkdir(os.path.join(self.dir, "sub"))
        self.fn = [os.path.join(self.dir, "sub", "a.json"), os.path.join(self.dir, "b.json")]
        self.start = clone(conc.DSTART if self.spec.kind == "dict" else conc.LSTART)
        for f in self.fn:
            self.put(f)
        mk = lambda i: self.spec.cls(filename=self.fn[i], write_concern=d["wc"])  # noqa: E731
        self.o1, self.o2, self.o3 = mk(0), mk(0), mk(1)
        self.node = self.o1
        for k in d["path"]:
            self.node = self.node[k]
        self.node()
        self.o2()
        self.undo = []

    def put(self, f):
        with open(f, "w") as fh:
            json.dump(self.start, fh)

    def damage(self, how):
        f = self.fn[0]
        sub = os.path.dirname(f)
        os.unlink(f)
        if how == "dir":
            os.mkdir(f)
            self.undo.append(lambda: os.rmdir(f))
        elif how == "loop":
            os.symlink(f, f)
            self.undo.append(lambda: os.unlink(f))
        elif how == "notdir":
            os.rmdir(sub)
            with open(sub, "w"):
                pass
            self.undo.append(lambda: (os.unlink(sub), os.mkdir(sub)))
        else:
            with open(f, "wb") as fh:
                fh.write(DAMAGE[how])

    def repair(self):
        for u in reversed(self.undo):
            with contextlib.suppress(OSError):
                u()
        self.undo = []
        with contextlib.suppress(OSError):
            for n in os.listdir(os.path.dirname(self.fn[0])):
                os.unlink(os.path.join(os.path.dirname(self.fn[0]), n))
        self.put(self.fn[0])

    def context(self):
        ctx = self.d["ctx"]
        st = contextlib.ExitStack()
        if ctx == "cls":
            st.enter_context(self.spec.cls.buffer_backend(*([self.d["cap"]] if self.d["cap"] is not None else [])))
        elif ctx == "obj":
            st.enter_context(self.o1.buffered)
            st.enter_context(self.o2.buffered)
        return st

    def close(self):
        sched.free_locks()
        sched.BAD_RELEASES.clear()
        if self.spec.buffered:
            reset_buffer(self.spec.cls)
        for f in self.fn:
            if isinstance(getattr(self.spec.cls, "_locks", None), dict):
                self.spec.cls._locks.pop(f, None)
        shutil.rmtree(self.dir, ignore_errors=True)


@contextlib.contextmanager
def pyfault(name, k):
    """The k-th call of a function used for loading or saving raises; yields the counter."""
    import hashlib
    import uuid

    mod, attr, exc = {
        "loads": (json, "loads", ValueError), "dumps": (json, "dumps", TypeError), "replace": (os, "replace", OSError),
        "stat": (os, "stat", PermissionError), "md5": (hashlib, "md5", ValueError), "uuid4": (uuid, "uuid4", OSError),
        "split": (os.path, "split", MemoryError), "join": (os.path, "join", MemoryError),
    }[name.rstrip("!")]
    if name.endswith("!"):
        # interrupted instead
        exc = KeyboardInterrupt
    real = getattr(mod, attr)
    n = [0]

    def wrapper(*a, **kw):
        if sys._getframe(1).f_code.co_filename.startswith(PKG):
            n[0] += 1
            if n[0] == k:
                raise exc("injected")
        return real(*a, **kw)

    setattr(mod, attr, wrapper)
    try:
        yield n
    finally:
        setattr(mod, attr, real)


def in_thread(job, what):
    """Run a job in a controlled thread; a deadlock is a violation."""
    sch = conc.scheduler()
    err = []

    def f():
        try:
            job()
        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
            err.append(e)

    if not sch.run([f], [0]):
        d = sch.deadlock
        raise Violation(f"{what} can't complete: it waits for the lock of {d[0][1]} held by {d[0][2]}" if d else f"{what} hangs")
    if sch.tasks[0].error is not None:
        raise RuntimeError(repr(sch.tasks[0].error))
    return err[0] if err else None


def other_thread(job, what):
    """Run a job in another thread of the pool."""
    sch = conc.scheduler()
    err = []

    def f():
        try:
            job()
        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
            err.append(e)

    # the first job occupies the first thread of the pool
    if not sch.run([lambda: None, f], [1, 0]):
        d = sch.deadlock
        raise Violation(f"{what} can't complete: it waits for the lock of {d[0][1]} held by {d[0][2]}" if d else f"{what} hangs")
    if sch.tasks[1].error is not None:
        raise RuntimeError(repr(sch.tasks[1].error))
    return err[0] if err else None


def run_fault(w, d, lib):
    """One operation with one fault. Returns the number of calls the fault could have hit."""
    s = Setting(w, d)
    n = 0
    try:
        fault = d["fault"]
        what = f"{d['class']} ({d['ctx']}): {d['op']} on {d['path']} with {fault}"
        stack = s.context()
        if d["warm"]:
            # in a buffered context the data is in the buffer already
            with contextlib.suppress(Exception):
                in_thread(lambda: value_op(s.o1, s.o1, "setitem", 7), what)

        def op():
            kind, arg = d["op"]
            if kind == "value":
                b = BAD[fault[1]] if fault[0] == "value" else None
                value_op(s.o1, s.node, arg, b() if b else s.node)
            elif kind == "exit":
                s.stack.close()
            elif kind == "rename":
                s.o1.filename = s.fn[1] if arg == "existing" else os.path.join(s.dir, "new.json")
                s.o1()
            elif kind == "cap":
                cap = s.spec.cls.get_buffer_capacity()
                try:
                    s.spec.cls.set_buffer_capacity(0)
                finally:
                    s.spec.cls.set_buffer_capacity(cap)
            elif kind == "ctx":
                with s.spec.cls.buffer_backend(arg):
                    s.o1[0 if s.spec.kind == "list" else "k"] = 1
                    s.o3[0 if s.spec.kind == "list" else "k"] = 1
            else:
                OPS[kind][2](s.node, *[dec(a) for a in clone(arg)])

        s.stack = stack
        if d["op"][0] == "exit":
            # changes to write when the context is left
            for o in (s.o1, s.o3):
                with contextlib.suppress(Exception):
                    in_thread(lambda: value_op(o, o, "setitem", 8), what)
        if fault[0] == "file":
            s.damage(fault[1])
            in_thread(op, what)
        elif fault[0] == "io":
            def failing():
                lib.shim_fail(fault[1], fault[2])
                try:
                    op()
                finally:
                    lib.shim_disarm()

            in_thread(failing, what)
            n = lib.shim_count()
        elif fault[0] == "py":
            with pyfault(fault[1], fault[2]) as c:
                in_thread(op, what)
            n = c[0]
        else:
            in_thread(op, what)
        if sched.BAD_RELEASES:
            raise Violation(f"{what}: lock {sched.BAD_RELEASES[0]} released without being held")
        held = sched.held_locks()
        if held:
            raise Violation(f"{what} leaves the lock of {held[0].where} held")
        s.repair()
        key = 0 if s.spec.kind == "list" else "zz"
        for o, name in ((s.o1, "the same object"), (s.o2, "another object of this file"), (s.o3, "an object of another file")):
            def after():
                with contextlib.suppress(Exception):
                    o[key] = 1
                with contextlib.suppress(Exception):
                    o()
                with contextlib.suppress(Exception):
                    o.reset(clone(s.start))
                type(o)(filename=s.fn[0])

            other_thread(after, f"{what}; then a thread using {name}")
        other_thread(lambda: stack.close(), f"{what}; then leaving the context")
        held = sched.held_locks()
        if held or sched.BAD_RELEASES:
            raise Violation(f"{what}: later operations leave the lock of {(held or [None])[0] and held[0].where} held")
        w.count("evaluations")
        w.count("faults")
        w.sig("fault", d["class"], d["ctx"], d["cap"], d["warm"], d["op"], d["path"], fault)
        return n
    finally:
        if lib is not None:
            lib.shim_disarm()
        s.close()


def fault_case(rng, name):
    """A setting and an operation without its fault."""
    spec = spec_by_name(name)
    start = conc.DSTART if spec.kind == "dict" else conc.LSTART
    path = list(rng.choice(conc.paths(start))) if rng.random() < 0.5 else []
    ctx = rng.choice([None, "cls", "obj", "cls"]) if spec.buffered else None
    g = conc.Gen(rng, spec.attr)
    node = conc.node_at(start, path)
    r = rng.random()
    if spec.buffered and r < 0.1:
        op = ("ctx", rng.choice([None, 0, 1]))
    elif ctx and r < 0.3:
        op = ("exit", None)
    elif ctx == "cls" and r < 0.4:
        op = ("cap", None)
    elif not ctx and r < 0.15:
        op = ("rename", rng.choice(["existing", "new"]))
    elif r < 0.75:
        op = g.mutator(node)
    else:
        op = g.read(node)
    return {"class": name, "path": path, "ctx": ctx, "cap": rng.choice([None, 0, 1, 50]) if ctx == "cls" else None,
            "wc": rng.random() < 0.2, "warm": rng.random() < 0.5, "op": tuple(op)}


def faults_share(w, name, block, n):
    lib = shim()
    for k in range(n):
        rng = w.rng("fault", name, block, k)
        d = fault_case(rng, name)
        spec = spec_by_name(name)
        todo = [("file", how) for how in DAMAGE]
        if lib is not None:
            d["fault"] = ("io", 0, 5)
            count = run_or_report(w, d, lib)
            if count is None:
                return
            todo += [("io", i, rng.choice([5, 13, 28])) for i in range(1, count + 1)]
        for f in ("loads", "dumps", "replace", "stat", "md5", "uuid4", "split", "join", "loads!", "dumps!", "replace!", "stat!"):
            d["fault"] = ("py", f, 0)
            count = run_or_report(w, d, lib)
            if count is None:
                return
            todo += [("py", f, i) for i in range(1, count + 1)]
        vs = [("value", v) for v in BAD]
        for fault in rng.sample(todo, min(len(todo), 40)) + rng.sample(vs, 8):
            c = dict(d, fault=fault)
            if fault[0] == "value":
                kind = "dict" if isinstance(conc.node_at(conc.DSTART if spec.kind == "dict" else conc.LSTART, d["path"]), dict) else "list"
                c["op"] = ("value", rng.choice(VALUE_OPS[kind]))
            if run_or_report(w, c, lib) is None:
                return


def run_or_report(w, d, lib):
    try:
        return run_fault(w, d, lib)
    except Violation as v:
        w.report(v.what, v.detail, dict(d, kind="fault"))
        return None


# -- programs -------------------------------------------------------------------
def _ctx(world, target, i, k, v):
    with world.objects[i].buffered:
        target[k] = v


def _bctx(world, target, cap, k, v):
    with type(target).buffer_backend(cap):
        target[k] = v


def _cap(world, target, n):
    cls = type(target)
    old = cls.get_buffer_capacity()
    cls.set_buffer_capacity(n)
    cls.set_buffer_capacity(old)


def _set(world, target, k, h):
    target[k] = world.handles[h]


def _update(world, target, h):
    target.update({"u": world.handles[h]}) if hasattr(target, "items") else target.extend([world.handles[h]])


def _reset(world, target, h):
    target.reset(world.handles[h])


def _merge(world, target, h):
    target.update(world.handles[h]) if hasattr(target, "items") else target.extend(world.handles[h])


def _slice(world, target, h):
    target[0:1] = world.handles[h]


def _rename(world, target, i):
    target.filename = world.files[i]


def _fail(world, target, k):
    target[k] = object()


conc.EXTRA.update({
    "ctx": _ctx, "bctx": _bctx, "cap": _cap, "set": _set, "updfrom": _update, "resetfrom": _reset, "merge": _merge, "slice": _slice,
    "eq": lambda w, t, h: t == w.handles[h], "lt": lambda w, t, h: t < w.handles[h], "in": lambda w, t, h: w.handles[h] in t,
    "iadd": lambda w, t, h: t.__iadd__(w.handles[h]), "index": lambda w, t, h: t.index(w.handles[h]),
    "count": lambda w, t, h: t.count(w.handles[h]), "remove": lambda w, t, h: t.remove(w.handles[h]),
    "append": lambda w, t, h: t.append(w.handles[h]), "insert": lambda w, t, h: t.insert(0, w.handles[h]),
    "setdefault": lambda w, t, h: t.setdefault("sd", w.handles[h]), "ctor": lambda w, t, h: type(t)(filename=w.files[0], data=w.handles[h])(),
    "deepcopy": lambda w, t: copy.deepcopy(t), "rename": _rename, "fail": _fail, "nested": lambda w, t, h: t.__setitem__(0 if not hasattr(t, "items") else "n", [{"x": [w.handles[h]]}]),
})


def program(rng, name):
    """Threads that use several collections at once."""
    spec = spec_by_name(name)
    g = conc.Gen(rng, spec.attr)
    nf = rng.choice([1, 2, 2, 3])
    other = name.replace("Dict", "List") if spec.kind == "dict" else name.replace("List", "Dict")
    classes, objects, start = [], [], []
    kinds = []
    for i in range(nf):
        c = name if i == 0 or rng.random() < 0.6 else other
        kinds.append(c)
        start.append(clone(conc.DSTART if "Dict" in c else conc.LSTART))
    for i in range(max(nf, rng.choice([2, 3]))):
        f = i % nf
        objects.append(f)
        classes.append(kinds[f])
    handles = []
    for o in range(len(objects)):
        handles.append([o, []])
        if rng.random() < 0.5:
            handles.append([o, list(rng.choice(conc.paths(start[objects[o]])))])
    n = rng.choice([2, 2, 3])
    threads = []
    for _ in range(n):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            h = rng.randrange(len(handles))
            o, path = handles[h]
            node = conc.node_at(start[objects[o]], path)
            d = isinstance(node, dict)
            h2 = rng.randrange(len(handles))
            k = "k" if d else 0
            r = rng.random()
            if r < 0.2:
                ops.append((h,) + g.mutator(node))
            elif r < 0.25:
                ops.append((h,) + g.read(node))
            elif r < 0.35 and spec.buffered:
                ops.append((h, "call", [rng.choice(["ctx"]), o, k, g.u()]))
            elif r < 0.5 and spec.buffered:
                ops.append((rng.choice([x for x in range(len(handles)) if not handles[x][1]]), "call", ["cap", rng.choice([0, 1])]))
            elif r < 0.6 and spec.buffered:
                roots = [x for x in range(len(handles)) if not handles[x][1]]
                hh = rng.choice(roots)
                ops.append((hh, "call", ["bctx", rng.choice([None, 0, 1]), "k" if "Dict" in classes[handles[hh][0]] else 0, g.u()]))
            elif r < 0.65:
                hh = rng.choice([x for x in range(len(handles)) if not handles[x][1]])
                fs = [i for i in range(nf) if kinds[i] == classes[handles[hh][0]]]
                ops.append((hh, "call", ["rename", rng.choice(fs)]))
            elif r < 0.7:
                ops.append((h, "call", ["fail", k]))
            elif r < 0.73:
                ops.append((h, "call", ["deepcopy"]))
            else:
                names = ["set", "updfrom", "resetfrom", "merge", "eq", "in", "nested"]
                names += ["setdefault"] if d else ["slice", "lt", "iadd", "index", "count", "remove", "append", "insert"]
                op = rng.choice(names)
                ops.append((h, "call", [op, k, h2] if op == "set" else [op, h2]))
        threads.append(ops)
    ctx = rng.choice([None, None, "cls"]) if spec.buffered else None
    return {"class": name, "classes": classes, "start": start, "objects": objects, "handles": handles, "threads": threads,
            "ctx": ctx, "cap": rng.choice([None, 0, 1, 60]) if ctx else None, "wc": False}


DCROSS = ["set", "updfrom", "resetfrom", "merge", "eq", "in", "nested", "setdefault"]
LCROSS = ["set", "updfrom", "resetfrom", "merge", "eq", "in", "nested", "slice", "lt", "iadd", "index", "count", "remove", "append",
          "insert"]


def crossed(w, item):
    """Two threads use two collections in opposite roles, for every operation which takes another collection."""
    name, block = item
    spec = spec_by_name(name)
    sched.monitor("line")
    start = clone(conc.DSTART if spec.kind == "dict" else conc.LSTART)
    paths = [list(p) for p in conc.paths(start)]
    for kind in ("root", "dict", "list"):
        for op in DCROSS if (spec.kind if kind == "root" else kind) == "dict" else LCROSS:
            rng = w.rng("crossed", name, block, kind, op)
            at = [p for p in paths if kind == type(conc.node_at(start, p)).__name__]
            h = [[o, [] if kind == "root" else rng.choice(at)] for o in (0, 1)]
            h += [[o, rng.choice([[], rng.choice(paths)])] for o in (0, 1)]
            threads = []
            for o in (0, 1):
                k = "k" if op in DCROSS and isinstance(conc.node_at(start, h[o][1]), dict) else 0
                other = rng.choice([1 - o, 3 - o])
                second = op if o == 0 or rng.random() < 0.7 else rng.choice(["eq", "merge", "in"])
                threads.append([(o, "call", [second, k, other] if second == "set" else [second, other])])
            prog = {"class": name, "start": [clone(start), clone(start)], "objects": [0, 1], "handles": h, "threads": threads,
                    "ctx": None, "cap": None, "wc": False}
            try:
                conc.explore(w, prog, rng, 6, conc.scheduler(), judge_free)
            except Violation as v:
                w.report(f"{v.what} [{name}: {conc.describe(prog)}]", v.detail,
                         {"prog": prog, "schedule": getattr(v, "schedule", None), "gran": "line", "kind": "crossed"})
                return
            w.count("crossed programs")


def judge_free(ex, world):
    """Every object is usable in another thread."""
    for i, o in enumerate(world.objects):
        def use():
            with contextlib.suppress(Exception):
                o["k" if hasattr(o, "items") else 0] = 1
            with contextlib.suppress(Exception):
                o()

        other_thread(use, f"a later operation on object {i}")
    if sched.held_locks() or sched.BAD_RELEASES:
        raise Violation("a later operation leaves a lock held")


# -- renames --------------------------------------------------------------------
def rename_program(rng, name):
    """Object 0 moves between files that other objects are bound to."""
    spec = spec_by_name(name)
    g = conc.Gen(rng)
    nf = rng.choice([2, 2, 3])
    d = spec.kind == "dict"
    start = [({"f": i, "n": {"x": 1}} if d else [{"x": 1}, i]) for i in range(nf)]
    objects = [0] + [rng.choice([0, 0, rng.randrange(nf)]) for _ in range(rng.choice([1, 2]))]
    handles = [[0, []]]
    for o in range(1, len(objects)):
        handles.append([o, []])

    def write(h):
        u = g.u()
        if d:
            op = rng.choice(["d.setitem", "d.setdefault", "d.update"])
            return (h, op, [f"k{u}", u] if op != "d.update" else [{f"k{u}": u}])
        op = rng.choice(["l.append", "l.extend", "l.iadd"])
        return (h, op, [u] if op == "l.append" else [[u]])

    t0 = []
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.5:
            t0.append(write(0))
        t0.append((0, "call", ["rename", rng.randrange(nf)]))
    if rng.random() < 0.7:
        t0.append(write(0))
    threads = [t0]
    for o in range(1, len(objects)):
        ops = [write(o) for _ in range(rng.choice([1, 2]))]
        if rng.random() < 0.3:
            ops.append((o, "d.call" if d else "l.call", []))
        threads.append(ops)
    return {"class": name, "start": start, "objects": objects, "handles": handles, "threads": threads, "ctx": None, "wc": False}


def judge_rename(ex, world):
    """All updates are in the file their object was bound to."""
    prog = ex.prog
    want = [clone(c) for c in prog["start"]]
    for t, ops in enumerate(prog["threads"]):
        at = {o: f for o, f in enumerate(prog["objects"])}
        for i, (h, op, args) in enumerate(ops):
            res = world.results[t, i]
            if res[0] != "ok":
                raise Violation(f"operation {t}.{i} ({op}) raised {res[1]}: {getattr(world, 'last_error', '')}")
            if op == "call":
                at[h] = args[1]
            elif op in ("d.setitem", "d.setdefault"):
                want[at[h]][args[0]] = args[1]
            elif op == "d.update":
                want[at[h]].update(args[0])
            elif op == "l.append":
                want[at[h]].append(args[0])
            elif op in ("l.extend", "l.iadd"):
                want[at[h]].extend(args[0])
    for i, c in enumerate(world.contents()):
        if isinstance(want[i], list) and isinstance(c, list):
            ok = sorted(map(conc.key, c)) == sorted(map(conc.key, want[i]))
        else:
            ok = conc.key(c) == conc.key(want[i])
        if not ok:
            raise Violation(f"file {i} holds {str(c)[:200]} instead of {str(want[i])[:200]}")


def shares_of(w, item):
    if item[0] == "faults":
        sched.monitor(None)
        faults_share(w, *item[1:])
    else:
        {"programs": programs, "crossed": crossed, "renames": renames, "orders": orders}[item[0]](w, item[1:])


programs = conc.conc_share(program, judge_free, "programs")
orders = conc.conc_share(program, judge_free, "orders")
renames = conc.conc_share(rename_program, judge_rename, "renames")


def main():
    if not os.environ.get("VERIF_SHIM") and not os.environ.get("VERIF_NO_SHIM"):
        return with_shim("C10")
    import_library()
    run = Run("C10", level="fault_enumeration")
    f = 14 if run.tier == "thorough" else 1
    shares = []
    for name in NAMES:
        shares += [("faults", name, b, 6) for b in range(5 * f)]
    shares += [("programs",) + s for s in conc.conc_shares(run, NAMES, 6)]
    shares += [("orders", name, b, 60, 2, "line", False) for name in NAMES for b in range(2 * f)]
    shares += [("crossed", name, b) for name in NAMES for b in range(2 * f)]
    shares += [("renames",) + s for s in conc.conc_shares(run, NAMES, 3)]
    run_workers(run, shares_of, shares)
    return run.finish(RULE, minimum=1000, assumptions=[
        "threads switch at executed library lines (or instructions) and at lock operations only",
        "exceptions are those the operating system, (de)serialization or values can raise, not ones injected between two lines"])


def replay(data):
    if not os.environ.get("VERIF_SHIM") and not os.environ.get("VERIF_NO_SHIM"):
        return with_shim("C10", sys.argv[2:])
    import_library()
    if data["kind"] == "fault":
        run = Run("C10")
        w = Worker(run, 0, run.scratch)
        try:
            run_fault(w, data, shim())
        except Violation as v:
            print("reproduced:", v.what)
            print("VIOLATION property=C10 replay=-")
            return 1
        print("not reproduced")
        return 0
    return conc.conc_replay("C10", data, judge_free if data["kind"] != "renames" else judge_rename)
