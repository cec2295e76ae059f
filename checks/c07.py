"""C07: a flush never silently overwrites a file someone else changed."""
import itertools
import os

from checks.bufcommon import *  # noqa: F403
from synced_collections.errors import BufferedError, MetadataError
from vlib.bufworld import reset_buffer
from vlib.confworld import run_conf
from vlib.resources import Resource, buffered_specs
from vlib.values import clone, same
from vlib.world import tweak

RULE = ("distinct (class, kind of contexts, roles and change times of all files, access pattern, kind of outside change) "
        "scenarios whose flush was observed")

ROLES = ("modified", "read", "untouched")
WHEN = ("before", "after", "never")
MODES = ("obj", "cls", "cls2", "obj_in_cls", "cls_in_obj", "force_set", "force_op", "force_obj", "enter", "enter_obj")
T0 = 1_600_000_000_123_456_789
MTIMES = (1_000, 1_000_000, 400_000_000, 10_000_000_000, -5_000_000_000, 0)
STARTS = {
    "dict": [{"a": 1, "n": {"x": [1, 2]}, "l": [1]}, {"a": 1}, {"k": "v", "n": {"x": {"y": 1}}}, {}],
    "list": [[1, {"x": [1]}, [2]], [1], ["v", [3]], []],
}


def uniq(counter=itertools.count(1)):
    return 1000 + next(counter) % 9000


def mutations(kind):
    """Mutators which surely change the content; each returns a plain function usable on both sides."""
    if kind == "dict":
        return ["set", "update", "reset", "clear", "child", "setdefault", "pop", "nav_then_set"]
    return ["append", "extend", "reset", "clear", "child", "insert", "iadd", "nav_then_set"]


def mutate(node, what, u):
    """Apply to a synced collection or a plain container."""
    plain = isinstance(node, (dict, list))
    dictlike = hasattr(node, "items")
    if what == "child":
        for v in (list(node) if not dictlike else [node[k] for k in sorted(node)]):
            if hasattr(v, "append"):
                v.append(u)
                return
            if hasattr(v, "items"):
                v["u"] = u
                return
        what = "set" if dictlike else "append"
    if what == "clear" and len(node) == 0:
        what = "set" if dictlike else "append"
    if what == "pop":
        if len(node) == 0:
            what = "set"
        else:
            node.pop(sorted(node)[0])
            return
    if what in ("set", "nav_then_set"):
        if dictlike:
            node["u"] = u
        else:
            node.append({"u": u})
    elif what == "update":
        node.update(u={"v": u})
    elif what == "setdefault":
        node.setdefault(f"u{u}", u)
    elif what == "append":
        node.append(u)
    elif what == "extend":
        node.extend([u, [u]])
    elif what == "insert":
        node.insert(0, u)
    elif what == "iadd":
        node += [u]
    elif what == "clear":
        node.clear()
    elif what == "reset":
        new = {"r": u} if dictlike else [u]
        if plain:
            node.clear()
            (node.update if dictlike else node.extend)(new)
        else:
            node.reset(new)
    else:
        raise KeyError(what)


def read(node, k):
    return [lambda: node(), lambda: len(node), lambda: list(node), lambda: node == 5, lambda: repr(node)][k % 5]()


class F:
    """One file of a scenario."""


class Scenario:
    def __init__(self, w, data):
        self.w = w
        self.d = data
        self.spec = spec_by_name(data["class"])
        self.cls = self.spec.cls
        self.files = []
        for fd in data["files"]:
            f = F()
            f.d = fd
            f.res = Resource(self.spec, w.scratch, data["write_concern"])
            start = fd["start"]
            f.missing = start == "<missing>"
            f.model = ({} if self.spec.kind == "dict" else []) if f.missing else clone(start)
            if not f.missing:
                f.res.raw_write(start)
                os.utime(f.res.filename, ns=(T0, T0))
            f.objs = [f.res.make() for _ in range(fd["objs"])]
            if fd["warm"]:
                for o in f.objs:
                    o()
            f.entered = f.modified = f.deleted = False
            f.name = f.res.filename
            f.print = f.res.fingerprint()
            self.files.append(f)

    # -- actions ----------------------------------------------------------
    def act(self, a):
        kind, i = a[0], a[1]
        f = self.files[i]
        if kind == "read":
            read(f.objs[a[2] % len(f.objs)], a[3])
            f.entered = True
        elif kind == "mutate":
            o = f.objs[a[2] % len(f.objs)]
            mutate(o, a[3], a[4])
            mutate(f.model, a[3], a[4])
            f.entered = f.modified = True
        elif kind == "change":
            self.change(f, a[2], a[3], a[4])

    def change(self, f, seed, how, mtime):
        """The outside writer."""
        rng = random.Random(seed)
        exists = os.path.exists(f.name)
        if how == "delete":
            if not exists:
                return
            os.unlink(f.name)
            new = None
        else:
            old = f.res.raw_read() if exists else ({} if self.spec.kind == "dict" else [])
            new = clone(old)
            if not (how == "same_size" and tweak(rng, new)):
                if isinstance(new, dict):
                    new[f"out{seed % 97}"] = seed
                else:
                    new.append({"out": seed})
            size = os.path.getsize(f.name) if exists else None
            stamp = os.stat(f.name).st_mtime_ns if exists else T0
            if how == "in_place" and exists:
                f.res.raw_write(new, 3)
            else:
                f.res.raw_write(new, 0)
            if mtime == 0 and os.path.getsize(f.name) == size:
                mtime = 1_000_000
            os.utime(f.name, ns=(stamp + mtime, stamp + mtime))
        f.print = f.res.fingerprint()
        if f.entered:
            f.outside = True
        else:
            f.missing = new is None
            f.model = clone(new) if new is not None else f.model
        f.deleted = new is None
        f.changed_after = f.entered

    # -- the scenario -----------------------------------------------------
    def bad(self, msg):
        raise Violation(f"{self.spec.name}: {msg}")

    def conflicts(self, files=None):
        return {f.name for f in (self.files if files is None else files)
                if f.modified and getattr(f, "changed_after", False)}

    def leave(self, ctx, kind, files):
        """Leave one context which has to flush the given files."""
        want = self.conflicts(files)
        try:
            ctx.__exit__(None, None, None)
        except MetadataError as e:
            if kind != "obj" or not want:
                self.bad(f"leaving a {kind} context raised MetadataError({e.filename}); conflicting: {len(want)} file(s)")
            if e.filename not in want:
                self.bad("MetadataError names another file")
        except BufferedError as e:
            if kind != "cls":
                self.bad(f"leaving a per-object context raised BufferedError({list(e.files)})")
            self.named(e, want)
        else:
            if want:
                self.bad(f"{len(want)} changed file(s) were flushed by a {kind} context without an error")
        self.flushed(files)

    def named(self, e, want):
        got = set(e.files)
        if got != want:
            base = os.path.basename
            self.bad(f"BufferedError names {sorted(map(base, got))} of {len(got)} file(s), conflicting: "
                     f"{sorted(map(base, want))} ({len(want)})")

    def flushed(self, files):
        """What the files must hold after they have been flushed."""
        names = self.conflicts(files)
        for f in files:
            i = self.files.index(f)
            if f.name in names or not f.modified:
                if f.res.fingerprint() != f.print:
                    why = "changed by someone else" if f.name in names else "which was not modified in the buffer"
                    self.bad(f"file {i}, {why}, was written: {f.res.raw_read()!r}")
            else:
                raw = f.res.raw_read()
                if not same(raw, f.model):
                    self.bad(f"file {i} holds {raw!r} after the flush, expected {f.model!r}")

    def force(self, call, trigger=None):
        want = self.conflicts()
        raised = False
        try:
            call()
        except BufferedError as e:
            raised = True
            if not want:
                self.bad(f"a forced flush without conflicts raised {e}")
            self.named(e, want)
        except MetadataError as e:
            self.bad(f"a forced flush raised MetadataError({e.filename})")
        if want and not raised:
            self.bad(f"{len(want)} changed file(s) were flushed by a forced flush without an error")
        self.flushed([f for f in self.files if f is not trigger])
        # From here on the conflicting files start over from what is on disk.
        for f in self.files:
            if f.name in want:
                f.modified = False
                f.changed_after = False
                f.model = f.res.raw_read() if not f.deleted else f.model
            elif f is not trigger:
                f.modified = False
                f.print = f.res.fingerprint()
        return raised

    def run(self):
        d = self.d
        mode = d["mode"]
        cls = self.cls
        cap0 = cls.get_buffer_capacity()
        files = self.files
        in_obj = [f for f, fd in zip(files, d["files"]) if fd["in_obj"]]
        if mode in ("obj", "force_obj", "enter_obj"):
            ctxs = [("obj", f.objs[0].buffered, [f]) for f in files]
        elif mode == "cls2":
            ctxs = [("cls", cls.buffer_backend, files), ("cls", cls.buffer_backend, [])]
        elif mode == "obj_in_cls":
            ctxs = [("cls", cls.buffer_backend, files)] + [("obj", f.objs[0].buffered, []) for f in in_obj]
        elif mode == "cls_in_obj":
            ctxs = [("obj", f.objs[0].buffered, [f]) for f in in_obj]
            ctxs.append(("cls", cls.buffer_backend, [f for f in files if f not in in_obj]))
        else:
            ctxs = [("cls", cls.buffer_backend, files)]
        opened = []
        try:
            for kind, c, fs in ctxs:
                if callable(c) and kind == "cls":
                    c = c(d["capacity"]) if d["capacity"] else c()
                c.__enter__()
                opened.append((kind, c, fs))
            for a in d["actions"]:
                self.act(a)
            if mode in ("force_set", "force_obj"):
                before = cls.get_buffer_capacity()
                self.force(lambda: cls.set_buffer_capacity(0))
                cls.set_buffer_capacity(before)
            elif mode in ("enter", "enter_obj"):
                # Entering a context whose capacity is exceeded forces a flush, too; a
                # context that could not be entered is not left.
                before = cls.get_buffer_capacity()
                c = cls.buffer_backend(0)
                if not self.force(c.__enter__):
                    c.__exit__(None, None, None)
                if cls.get_buffer_capacity() != before:
                    self.bad(f"capacity {cls.get_buffer_capacity()} after an inner context, it was {before}")
            elif mode == "force_op":
                before = cls.get_buffer_capacity()
                cls.set_buffer_capacity(cls.get_current_buffer_size())
                t = files[-1]
                u = uniq()
                t.entered = True
                raised = self.force(lambda: mutate(t.objs[0], "set", u), t)
                old = clone(t.model)
                mutate(t.model, "set", u)
                t.modified = True
                if raised:
                    # The triggering call failed; whether it was applied is not specified.
                    raw = t.res.raw_read()
                    if not same(raw, t.model) and t.objs[0]() == old:
                        t.model = old
                        t.modified = False
                cls.set_buffer_capacity(before)
            while opened:
                kind, c, fs = opened.pop()
                self.leave(c, kind, fs)
            self.finish(cap0)
        finally:
            while opened:
                try:
                    opened.pop()[1].__exit__(None, None, None)
                except Exception:
                    pass
            try:
                cls.set_buffer_capacity(cap0)
            except Exception:
                pass
            reset_buffer(cls)
            for f in files:
                f.res.dispose()

    def finish(self, cap0):
        cls = self.cls
        if cls.get_current_buffer_size() != 0:
            self.bad(f"buffer size {cls.get_current_buffer_size()} after all contexts were left")
        if cls.get_buffer_capacity() != cap0:
            self.bad(f"capacity {cls.get_buffer_capacity()} after all contexts were left, it was {cap0}")
        buf = getattr(cls, "_buffer", {})
        if isinstance(buf, dict) and any(f.name in buf for f in self.files):
            self.bad("a file is still in the buffer after all contexts were left")
        if cls.backend_is_buffered():
            self.bad("the backend is still buffered after all contexts were left")
        for i, f in enumerate(self.files):
            self.flushed([f])
            disk = f.res.raw_read()
            for o in f.objs:
                if disk is not MISSING and not same(o(), disk):
                    self.bad(f"an object on file {i} shows {o()!r}, on disk is {disk!r}")
            # every object is usable again: unbuffered and buffered
            for o in f.objs:
                for what in ("now", "obj", "cls"):
                    u = uniq()
                    if disk is MISSING:
                        disk = {} if self.spec.kind == "dict" else []
                        o.reset(disk)
                    mutate(disk, "set", u)
                    if what == "now":
                        mutate(o, "set", u)
                    else:
                        with (o.buffered if what == "obj" else cls.buffer_backend()):
                            mutate(o, "set", u)
                    raw = f.res.raw_read()
                    if not same(raw, disk) or not same(o(), disk):
                        self.bad(f"afterwards a write ({what}) to file {i} gave {raw!r} on disk and {o()!r}, "
                                 f"expected {disk!r}")


def body_of(role):
    return role != "untouched"


def generate(rng, spec, combo, mode):
    """A scenario for the given (role, when) per file."""
    files = []
    actions = []  # per file sequences, interleaved afterwards
    for i, (role, when) in enumerate(combo):
        start = "<missing>" if rng.random() < 0.12 else clone(rng.choice(STARTS[spec.kind]))
        objs = rng.choice([1, 2]) if mode in ("cls", "cls2", "force_set", "force_op", "enter") else 1
        files.append({"start": start, "objs": objs, "warm": rng.random() < 0.5, "in_obj": rng.random() < 0.5})
        how = rng.choice(["replace", "in_place", "same_size", "replace", "same_size", "in_place"] + (["delete"] if when == "after" and body_of(role) else []))
        ch = ("change", i, rng.randrange(10**4), how, rng.choice(MTIMES))
        rd = lambda: ("read", i, rng.randrange(2), rng.randrange(5))  # noqa: E731
        mu = lambda: ("mutate", i, rng.randrange(2), rng.choice(mutations(spec.kind)), uniq())  # noqa: E731
        if role == "modified":
            # the last mutation never takes back an earlier one
            body = rng.choice([[mu()], [rd(), mu()], [mu(), rd()], [mu(), mu()]])
        elif role == "read":
            body = [rd() for _ in range(rng.choice([1, 2]))]
        else:
            body = []
        if when == "before":
            body = [ch] + body
        elif when == "after":
            k = rng.randrange(1, len(body) + 1) if body else 0
            body = body[:k] + [ch] + body[k:]
        actions.append(body)
    merged = []
    while any(actions):
        a = rng.choice([b for b in actions if b])
        merged.append(a.pop(0))
    if mode == "force_op":
        files.append({"start": clone(rng.choice(STARTS[spec.kind])), "objs": 1, "warm": rng.random() < 0.5,
                      "in_obj": False})
    return {
        "class": spec.name, "mode": mode, "files": files, "actions": merged,
        "write_concern": rng.random() < 0.3, "threading": rng.random() < 0.75,
        "capacity": None if mode == "force_op" or rng.random() < 0.6 else rng.choice([10**6, 10**8]),
    }


def unchanged(d, spec):
    """True when some file's modifications cancel out (whether it counts as modified is open)."""
    for i, fd in enumerate(d["files"]):
        m = ({} if spec.kind == "dict" else []) if fd["start"] == "<missing>" else clone(fd["start"])
        seen = False
        base = None
        for a in d["actions"]:
            if a[1] == i and a[0] == "mutate":
                if not seen:
                    base = clone(m)
                seen = True
                mutate(m, a[3], a[4])
        if seen and same(base, m):
            return True
    return False


def one(w, d):
    spec = spec_by_name(d["class"])
    if unchanged(d, spec):
        return
    set_threading(spec, d["threading"])
    try:
        s = Scenario(w, d)
        s.run()
        w.count("evaluations")
        w.count(f"mode:{d['mode']}")
        w.count("conflicts", sum(bool(getattr(f, "changed_after", False) and f.modified) for f in s.files))
    finally:
        set_threading(spec, True)


def conf_gen(rng, spec, mode, caps):
    def gen(w):
        r = rng.random()
        n = len(w.files)
        if r < 0.12 or not w.ctx:
            keys = ["cls"] if mode == "cls" else list(range(n)) if mode == "obj" else ["cls"] + list(range(n))
            i = rng.choice(keys)
            if i in w.ctx and (len(w.ctx) > 1 or rng.random() < 0.4):
                return ("exit", i, rng.random() < 0.25)
            if i not in w.ctx:
                return ("enter", i)
        i = rng.randrange(n)
        if r < 0.2:
            return ("cap", rng.choice(caps))
        if r < 0.4:
            how = rng.choice(["replace", "in_place", "same_size", "shrink"])
            return ("change", i, rng.randrange(10**4), how, rng.choice(MTIMES))
        if r < 0.6:
            return ("read", i, rng.randrange(3), rng.randrange(4))
        return ("mutate", i, rng.randrange(3), rng.choice(mutations(spec.kind)), uniq())
    return gen


def conf_share(w, item):
    _, name, mode, n, block = item
    spec = spec_by_name(name)
    for k in range(n):
        rng = w.rng(name, mode, block, k, "conf")
        files = [("<missing>" if rng.random() < 0.12 else clone(rng.choice(STARTS[spec.kind])),
                  rng.choice([1, 1, 2]) if mode == "cls" else 1) for _ in range(rng.choice([1, 2, 2, 3]))]
        caps = [-1, -1, 0, 10**6, 10**8] + ([1, 2] if spec.buffered == "memory" else [30, 60, 120])
        d = {"class": name, "conf": {"files": files, "mode": mode, "write_concern": rng.random() < 0.3},
             "threading": rng.random() < 0.75}
        set_threading(spec, d["threading"])
        try:
            world, done = run_conf(spec, w.scratch, conf_cfg(d), mutate, conf_gen(rng, spec, mode, caps), n_steps=22)
            w.count("histories")
            w.count("evaluations", world.events)
            w.count("conflicts", world.conflicts)
            w.sig(name, mode, [s[0] if s[0] in ("enter", "exit", "cap") else (s[0], s[1], s[3]) for s in done])
        except Violation as v:
            d["steps"] = v.steps

            def fails(c):
                try:
                    run_conf(spec, w.scratch, conf_cfg(d), mutate, steps=c)
                    return False
                except Violation as v2:
                    fails.last = v2
                    return True

            fails.last = v
            d["steps"] = shrink(v.steps, fails, 6.0)
            w.report(f"{name}: {fails.last.what} [history, {mode}]", fails.last.detail, d)
            return
        finally:
            set_threading(spec, True)


def conf_cfg(d):
    c = dict(d["conf"])
    c["files"] = [(MISSING if s == "<missing>" else s, k) for s, k in c["files"]]
    return c


def share(w, item):
    if item[0] == "conf":
        return conf_share(w, item)
    name, mode, n_files, lo, hi, block = item
    spec = spec_by_name(name)
    cells = [c for c in itertools.product(ROLES, WHEN)]
    combos = list(itertools.product(cells, repeat=n_files))
    if n_files > 2:
        w.rng(name, mode, n_files, block, "pick").shuffle(combos)
    for k in range(lo, min(hi, len(combos))):
        rng = w.rng(name, mode, n_files, k, block)
        d = generate(rng, spec, combos[k], mode)
        try:
            one(w, d)
        except Violation as v:
            w.report(v.what + f" [mode {mode}]", v.detail, d)
            return
        except Exception as e:
            w.report(f"{spec.name}: unexpected {type(e).__name__}: {e} [mode {mode}]", traceback.format_exc(), d)
            return
        w.sig(name, mode, combos[k], [(a[0],) + tuple(a[3:4]) for a in d["actions"]])
        if len(w.samples) < 2:
            w.sample({"class": name, "mode": mode, "files": combos[k], "actions": repr(d["actions"])[:300]})


def main():
    import_library()
    run = Run("C07")
    f = 10 if run.tier == "thorough" else 2
    shares = []
    for spec in buffered_specs():
        for mode in MODES:
            for b in range(3 * f):
                shares.append((spec.name, mode, 1, 0, 9, b))
                shares.append((spec.name, mode, 2, 0, 81, b))
            shares.append((spec.name, mode, 3, 0, 120 * min(f, 6), 0))
            shares.append((spec.name, mode, 4, 0, 40 * f, 0))
        for mode in ("cls", "obj", "both"):
            for b in range(4 * f):
                shares.append(("conf", spec.name, mode, 60, b))
    run_workers(run, share, shares)
    return run.finish(RULE, minimum=5000, assumptions=ASSUME)


ASSUME = ["an outside change differs from all earlier states of the file in size or in the modification time (by a microsecond or more)",
          "a file deleted by the outside writer counts as changed",
          "modifications that cancel out are not used"]


def replay(data):
    import_library()
    run = Run("C07")
    w = Worker(run, 0, run.scratch)
    print(data)
    try:
        if "conf" in data:
            spec = spec_by_name(data["class"])
            set_threading(spec, data["threading"])
            run_conf(spec, run.scratch, conf_cfg(data), mutate, steps=data["steps"])
        else:
            one(w, data)
    except Violation as v:
        print("reproduced:", v.what)
        print("VIOLATION property=C07 replay=-")
        return 1
    print("not reproduced")
    return 0
