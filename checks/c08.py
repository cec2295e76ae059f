"""C08: a crash during a save leaves each JSON file wholly old or wholly new.

Three monitors:

* observe: what a crash would leave behind is what the kernel shows at that instant, so the files are
  read at every bytecode instruction executed during the save.
* crash: the process really dies at every libc call that can change files (before it, after it, in the
  middle of a write); another process then looks at the files and opens them. The same with a call
  that fails with an error before that.
* kill: a writing process is killed from outside at random moments.
"""
import contextlib
import json
import os
import shutil
import signal
import sys
import time

from checks.common import *  # noqa: F403
from vlib.bufworld import reset_buffer
from vlib.resources import Resource
from vlib.shim import shim, with_shim
from vlib.values import clone, same

RULE = ("distinct (class, write mode, context, operations, sizes, crash point) at which the files were examined: instructions "
        "with a new file state, libc calls with position, outside kills")

NAMES = [s + k for s in ("JSON", "JSONAttr", "BufferedJSON", "BufferedJSONAttr", "MemoryBufferedJSON", "MemoryBufferedJSONAttr")
         for k in ("Dict", "List")]
MODES = [(True, True), (False, True), (True, False)]  # (write_concern, threading): the atomic ones
CTX = [None, "obj", "cls", "set_cap", "tiny"]
OPS = {"dict": ["set", "child", "clear", "reset", "update", "pop", "setdefault", "nested_set"],
       "list": ["append", "child", "clear", "reset", "extend", "pop", "insert", "slice"]}
CRASHED = 77
ODD = ["two words.json", "ümläut-日本.json", ".hidden", "no_suffix", "%s{x}$HOME*.json", "~", "a'b\"c.json", "-f", "n" * 150]


def payload(rng, size):
    n = {"tiny": 1, "small": 5, "medium": 60, "large": 40000}[size]
    if size == "large":
        return "x" * (n * 6)
    if size == "medium" and rng.random() < 0.5:
        return "y" * 20000
    return rng.choice([lambda: "x" * (n * 6), lambda: list(range(n)), lambda: [{"i": i} for i in range(n // 2)]])()


def apply(node, op, v):
    """Apply to a synced collection or to the model."""
    plain = isinstance(node, (dict, list))
    d = hasattr(node, "items")
    if op == "child":
        (node["n"] if d else node[0])["u"] = v
    elif op == "nested_set":
        node["n"]["l"].append(v)
    elif op == "set":
        node["k"] = v
    elif op == "clear":
        node.clear()
        # later operations expect these
        if d:
            node["n"] = {"l": []}
        else:
            node.append({"l": []})
    elif op == "reset":
        new = {"n": {"l": []}, "r": v} if d else [{"l": []}, v]
        if plain:
            node.clear()
            (node.update if d else node.extend)(new)
        else:
            node.reset(new)
    elif op == "update":
        node.update({"k": v, "m": [v]})
    elif op == "setdefault":
        node.setdefault("sd" + str(len(node)), v)
    elif op == "pop":
        if d:
            node.pop("k", None)
            node["popped"] = len(node)
        else:
            node.append(len(node))
            node.pop()
    elif op == "append":
        node.append(v)
    elif op == "extend":
        node.extend([v, v])
    elif op == "insert":
        node.insert(1, v)
    elif op == "slice":
        node[1:1] = [v]


class Scenario:
    """Built from a literal description; files and objects are made in the calling process."""

    def __init__(self, w, d):
        self.w, self.d = w, d
        self.spec = spec_by_name(d["class"])
        rng = random.Random(d["seed"])
        set_threading(self.spec, d["mode"][1])
        self.files = []
        self.cwd = None
        for i in range(d["files"]):
            res = Resource(self.spec, w.scratch, d["mode"][0])
            if d["relative"]:
                # a bare file name in the current directory
                self.cwd = os.getcwd()
                os.chdir(res.dir)
                res.filename = os.path.basename(res.filename)
            if d.get("name") == "odd":
                res.filename = os.path.join(os.path.dirname(res.filename), rng.choice(ODD))
            elif d.get("name") == "link":
                self.link(res)
            start = {"n": {"l": [1]}, "k": payload(rng, d["sizes"][0])} if self.spec.kind == "dict" else \
                [{"l": [1]}, payload(rng, d["sizes"][0])]
            if d["missing"] and i == 0:
                start = {"n": {"l": []}} if self.spec.kind == "dict" else [{"l": []}]
                obj = res.make(data=clone(start))
                states = [MISSING]
            else:
                res.raw_write(start, rng.choice([0, 1, 2]))
                obj = res.make()
                obj()
                states = [clone(start)]
            f = {"res": res, "obj": obj, "states": states, "now": 0, "model": clone(start), "warm": start,
                 "path": os.path.abspath(res.filename)}
            self.files.append(f)
        # all states the files may go through
        self.plan = []
        for _ in range(d["ops"]):
            i = rng.randrange(len(self.files))
            op = rng.choice(OPS[self.spec.kind])
            v = payload(rng, d["sizes"][1])
            self.plan.append((i, op, v))
        for i, op, v in self.plan:
            f = self.files[i]
            # operations made of several calls have intermediate states of their own
            for part in steps_of(f["model"], op, v):
                f["states"].append(part)
            f["model"] = clone(f["states"][-1])
        # a failing call ends the program early, so its flush may save any of the states
        if self.d["ctx"] in ("obj", "cls") and d.get("kind") not in ("ioerror", "double"):
            for f in self.files:
                f["states"] = [f["states"][0], f["states"][-1]]

    def link(self, res):
        """The file name is a symbolic link."""
        os.symlink("target.json", res.filename)

    def body(self):
        d, cls = self.d, self.spec.cls
        with contextlib.ExitStack() as st:
            if d["ctx"] == "obj":
                for f in self.files:
                    st.enter_context(f["obj"].buffered)
            elif d["ctx"] in ("cls", "set_cap"):
                st.enter_context(cls.buffer_backend())
            elif d["ctx"] == "tiny":
                st.enter_context(cls.buffer_backend(1))
            for n, (i, op, v) in enumerate(self.plan):
                apply(self.files[i]["obj"], op, v)
                if d["ctx"] == "set_cap" and n % 2:
                    cap = cls.get_buffer_capacity()
                    cls.set_buffer_capacity(0)
                    cls.set_buffer_capacity(cap)

    def restore(self):
        """Bring the files back to the start (for another crash)."""
        for f in self.files:
            for n in os.listdir(os.path.dirname(f["path"])):
                os.unlink(os.path.join(os.path.dirname(f["path"]), n))
            if self.d.get("name") == "link":
                self.link(f["res"])
            if f["states"][0] is not MISSING:
                f["res"].raw_write(f["states"][0])

    def state(self, f):
        """Index of the state the file is in; raises Violation when it is in none."""
        try:
            with open(f["path"], "rb") as fh:
                blob = fh.read()
        except FileNotFoundError:
            if f["states"][0] is MISSING:
                return 0
            raise Violation(f"the file does not exist (it held {str(f['states'][0])[:80]}…)")
        try:
            data = json.loads(blob)
        except ValueError:
            raise Violation(f"the file holds {len(blob)} bytes which are not JSON: {blob[:60]!r}…{blob[-30:]!r}")
        for i in range(len(f["states"]) - 1, -1, -1):
            if f["states"][i] is not MISSING and same(data, f["states"][i]):
                return i
        raise Violation(f"the file holds neither the old nor the new content but {str(data)[:200]}")

    def dispose(self):
        if self.cwd:
            os.chdir(self.cwd)
        set_threading(self.spec, True)
        if self.spec.buffered:
            reset_buffer(self.spec.cls)
        for f in self.files:
            shutil.rmtree(os.path.dirname(f["path"]), ignore_errors=True)


def steps_of(model, op, v):
    """The contents after each call apply() makes."""
    seen = []

    class Spy:
        """Records the model after every mutating method."""

        def __init__(self, x, root):
            self.__dict__["x"], self.__dict__["root"] = x, root

        def __getattr__(self, n):
            f = getattr(self.x, n)
            if not callable(f):
                return f

            def call(*a, **k):
                r = f(*a, **k)
                seen.append(clone(self.root))
                return r

            return call

        def __len__(self):
            return len(self.x)

        def __getitem__(self, k):
            r = self.x[k]
            return Spy(r, self.root) if isinstance(r, (dict, list)) else r

        def __setitem__(self, k, val):
            self.x[k] = val
            seen.append(clone(self.root))

    m = clone(model)
    if op == "reset":
        apply(m, op, v)
        return [m]
    apply(Spy(m, m), op, v)
    return seen or [m]


# -- observe -------------------------------------------------------------------
TOOL = 4


def observe(w, s):
    """Examine the files at every instruction of the save."""
    mon = sys.monitoring
    last = {}
    seen = [0, 0]
    bad = []
    stat = os.stat
    files = s.files
    small = all(len(json.dumps(x)) < 4000 for f in files for x in f["states"] if x is not MISSING)

    def at(code, offset):
        seen[0] += 1
        if bad:
            return
        for f in files:
            try:
                st = stat(f["path"])
                sig = (st.st_ino, st.st_size, st.st_mtime_ns)
            except FileNotFoundError:
                sig = None
            if sig != last.get(id(f), 0) or (small and seen[0] % 4 == 0):
                last[id(f)] = sig
                seen[1] += 1
                try:
                    i = s.state(f)
                except Violation as v:
                    # the program is not interrupted: an exception raised here could surface anywhere
                    bad.append(f"{v.what} [in {code.co_qualname}, {os.path.basename(code.co_filename)}]")
                    return
                w.sig("observe", s.d["class"], s.d["mode"], s.d["ctx"], s.d["sizes"], i, code.co_qualname, offset)

    mon.use_tool_id(TOOL, "verif")
    try:
        mon.register_callback(TOOL, mon.events.INSTRUCTION, at)
        mon.set_events(TOOL, mon.events.INSTRUCTION)
        s.body()
    except Exception:
        if not bad:
            raise
    finally:
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)
    if bad:
        raise Violation(bad[0])
    if not seen[0]:
        raise RuntimeError("no instruction was observed")
    w.count("instructions", seen[0])
    w.count("evaluations", seen[1])
    for f in files:
        got, want = f["states"][s.state(f)], f["states"][-1]
        if got is not want and (got is MISSING or want is MISSING or not same(got, want)):
            raise Violation("the final content was not saved")


# -- crash ---------------------------------------------------------------------
def in_child(func):
    """Run func in a forked child; returns its exit status."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            func()
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


def crash(w, s, lib, rng, limit):
    """Die at the libc calls of the save."""
    r, wr = os.pipe()

    def dry():
        lib.shim_arm(0, 0, -1)
        s.body()
        lib.shim_disarm()
        n = lib.shim_count()
        os.write(wr, json.dumps([(chr(lib.shim_kind(i)), lib.shim_len(i)) for i in range(1, n + 1)]).encode())

    code = in_child(dry)
    os.close(wr)
    calls = json.loads(os.read(r, 1 << 20) or b"[]")
    os.close(r)
    if code != 0:
        raise Violation(f"the save failed without any fault (status {code})")
    if not calls:
        raise RuntimeError("the shim saw no call")
    points = []
    for k, (kind, n) in enumerate(calls, 1):
        points += [(k, kind, 0, -1), (k, kind, 1, -1)]
        if kind in "ws" and n > 0:
            points += [(k, kind, 0, b) for b in sorted({0, 1, n // 2, n - 1})]
    if len(points) > limit:
        points = rng.sample(points, limit)
    for k, kind, after, b in points:
        s.restore()

        def die():
            lib.shim_arm(k, after, b)
            s.body()

        code = in_child(die)
        where = f"call {k} of {len(calls)} ({kind}{', after it' if after else ''}{f', {b} bytes written' if b >= 0 else ''})"
        if code not in (0, CRASHED):
            raise Violation(f"the child ended with status {code} at {where}")
        w.count("evaluations")
        w.count("crashes" if code == CRASHED else "not reached")
        after_crash(w, s, where)
        w.sig("crash", s.d["class"], s.d["mode"], s.d["ctx"], s.d["sizes"], s.d["missing"], k, kind, after, b)


def ioerror(w, s, lib, rng, limit):
    """A failing call is not a crash, but the process may die right after it."""
    r, wr = os.pipe()

    def dry():
        lib.shim_fail(0, 5)
        s.body()
        lib.shim_disarm()
        os.write(wr, str(lib.shim_count()).encode())

    code = in_child(dry)
    os.close(wr)
    n = int(os.read(r, 100) or b"0")
    os.close(r)
    if code != 0 or not n:
        raise Violation(f"the save failed without any fault (status {code})")
    for k in sorted(rng.sample(range(1, n + 1), min(limit, n))):
        s.restore()
        err = rng.choice([5, 28])

        def fail():
            lib.shim_fail(k, err)
            with contextlib.suppress(Exception):
                s.body()

        code = in_child(fail)
        if code != 0:
            raise Violation(f"the child ended with status {code}")
        w.count("evaluations")
        w.count("failed calls")
        after_crash(w, s, f"call {k} of {n}, which failed with errno {err}")
        w.sig("ioerror", s.d["class"], s.d["mode"], s.d["ctx"], s.d["sizes"], s.d["missing"], k, err)


def double(w, s, lib, rng, limit):
    """A call fails and the process dies while this is being handled."""
    def run(k, err, then=None):
        r, wr = os.pipe()

        def child():
            lib.shim_fail(k, err)
            if then:
                lib.shim_then(*then)
            with contextlib.suppress(Exception):
                s.body()
            lib.shim_disarm()
            n = lib.shim_count()
            os.write(wr, json.dumps([(chr(lib.shim_kind(i)), lib.shim_len(i)) for i in range(1, n + 1)]).encode())

        s.restore()
        code = in_child(child)
        os.close(wr)
        calls = json.loads(os.read(r, 1 << 20) or b"[]")
        os.close(r)
        if code not in (0, CRASHED):
            raise Violation(f"the child ended with status {code}")
        return calls

    calls = run(0, 0)
    # failures of the calls that change files are the ones a program may try to handle
    changing = [k for k, (kind, _) in enumerate(calls, 1) if kind.islower() and kind != "c"]
    rng.shuffle(changing)
    for k in changing:
        err = rng.choice([1, 13, 16, 18, 22, 28] if calls[k - 1][0] == "r" else [1, 5, 13, 28])
        later = run(k, err)
        points = []
        for j in range(k + 1, len(later) + 1):
            kind, n = later[j - 1]
            if kind.islower():
                points += [(j, 0, -1), (j, 1, -1)] + ([(j, 0, n // 2)] if kind in "ws" and n > 0 else [])
        # first what follows immediately
        for then in points[:8] + rng.sample(points[8:], min(4, len(points[8:]))):
            run(k, err, then)
            w.count("evaluations")
            w.count("double faults")
            after_crash(w, s, f"call {k} of {len(calls)} failed with errno {err}, then call {then[0]} "
                              f"({later[then[0] - 1][0]}, after={then[1]}, {then[2]} bytes)")
            w.sig("double", s.d["class"], s.d["mode"], s.d["ctx"], s.d["sizes"], s.d["missing"], k, err, then)
            limit -= 1
            if limit <= 0:
                return


def after_crash(w, s, where):
    """Files wholly old or new; a new object opens them and can write."""
    for i, f in enumerate(s.files):
        try:
            n = s.state(f)
        except Violation as v:
            raise Violation(f"crash at {where}: {v.what}")
        res = f["res"]
        fresh = res.make()
        want = f["states"][n]
        if want is MISSING:
            want = {} if s.spec.kind == "dict" else []
        try:
            got = fresh()
            if not same(got, want):
                raise Violation(f"crash at {where}: a new object shows {str(got)[:100]}, the file holds {str(want)[:100]}")
            if s.spec.kind == "dict":
                fresh["again"] = 1
                want = {**want, "again": 1}
            else:
                fresh.append("again")
                want = want + ["again"]
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"crash at {where}: a new object fails with {type(e).__name__}: {e}")
        if not same(json.loads(open(f["path"], "rb").read()), want):
            raise Violation(f"crash at {where}: a new object cannot write")


# -- kill ----------------------------------------------------------------------
def kill(w, name, mode, ctx, seed, n):
    """A writing process is killed at random moments."""
    spec = spec_by_name(name)
    rng = random.Random(seed)
    set_threading(spec, mode[1])
    res = Resource(spec, w.scratch, mode[0])
    try:
        pad = "x" * rng.choice([10, 5000, 60000])
        res.raw_write({"i": 0, "p": pad, "j": 0} if spec.kind == "dict" else [0, pad, 0])
        for _ in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    o = res.make()
                    i = 0
                    os.write(wr, b"r")
                    while True:
                        i += 1
                        new = {"i": i, "p": pad[: i % 7 * 10] + pad, "j": i}
                        with (spec.cls.buffer_backend() if ctx == "cls" else contextlib.nullcontext()):
                            if spec.kind == "dict":
                                o.reset(new)
                            else:
                                o.reset([i, new["p"], i])
                finally:
                    os._exit(1)
            os.close(wr)
            os.read(r, 1)
            os.close(r)
            time.sleep(rng.random() * 0.01)
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            try:
                data = res.raw_read()
            except ValueError as e:
                raise Violation(f"killed while writing: the file is not JSON any more ({e})")
            a, b = (data["i"], data["j"]) if spec.kind == "dict" else (data[0], data[2])
            if a != b or data is MISSING:
                raise Violation(f"killed while writing: mixed content {a} / {b}")
            if not same(res.make()(), data):
                raise Violation("killed while writing: a new object does not show what is in the file")
            w.count("evaluations")
            w.count("kills")
    finally:
        set_threading(spec, True)
        for f in os.listdir(res.dir):
            os.unlink(os.path.join(res.dir, f))
        os.rmdir(res.dir)
    w.sig("kill", name, mode, ctx)


# -- content that cannot be serialized -------------------------------------------
def unserializable(w, name, mode, ctx, op, where, seed):
    """The file keeps every byte when the content cannot be encoded."""
    spec = spec_by_name(name)
    rng = random.Random(seed)
    set_threading(spec, mode[1])
    res = Resource(spec, w.scratch, mode[0])
    cls = spec.cls
    bad = 10 ** 5000  # passes every validation, but has too many digits to be encoded
    if where == "object":
        bad = object()
    try:
        start = {"n": {"l": [1]}, "k": payload(rng, "small"), "z": 1} if spec.kind == "dict" else [{"l": [1]}, "v", 2]
        res.raw_write(start, 1)
        before = res.fingerprint()
        obj = res.make()
        obj()
        raised = None
        try:
            with (obj.buffered if ctx == "obj" else cls.buffer_backend() if ctx == "cls" else contextlib.nullcontext()):
                if where == "object":
                    # put behind the validation, as a corrupted in-memory state would be
                    lock = getattr(obj, "_thread_lock", None)
                    data = obj._data
                    if isinstance(data, dict):
                        (data if rng.random() < 0.5 else data["n"]._data)["bad"] = bad
                    else:
                        (data if rng.random() < 0.5 else data[0]["l"]._data).append(bad)
                    with lock if lock is not None else contextlib.nullcontext():
                        obj._save()
                else:
                    v = rng.choice([bad, [1, {"x": bad}], {"a": 1, "b": [bad]}, [payload(rng, "medium"), bad]])
                    if op == "child":
                        (obj["n"] if spec.kind == "dict" else obj[0])["u"] = v
                    elif op == "reset":
                        obj.reset({"a": 1, "r": v} if spec.kind == "dict" else [1, v])
                    elif spec.kind == "dict":
                        obj["zz"] = v
                    else:
                        obj.append(v)
        except Exception as e:  # noqa: BLE001
            raised = e
        now = res.fingerprint()
        what = f"{name} (write_concern={mode[0]}, threading={mode[1]}, context {ctx}): {op} of unserializable content ({where})"
        if now[0] != before[0]:
            # rewriting the old content would be harmless
            try:
                ok = same(res.raw_read(), start)
            except ValueError:
                ok = False
            if not ok:
                raise Violation(f"{what} damaged the file: {str(now[0][3] if now[0] else None)[:150]}")
        if raised is None and where != "object":
            raise Violation(f"{what} raised nothing")
        if spec.buffered:
            reset_buffer(cls)
        fresh = res.make()
        if not same(fresh(), start):
            raise Violation(f"{what}: afterwards a new object shows {fresh()!r:.200}")
        w.count("evaluations")
        w.count("unserializable")
        w.sig("unserializable", name, mode, ctx, op, where)
    finally:
        set_threading(spec, True)
        if spec.buffered:
            reset_buffer(cls)
        shutil.rmtree(res.dir, ignore_errors=True)


# -- driver ---------------------------------------------------------------------
def scenario(rng, name):
    spec = spec_by_name(name)
    sizes = rng.choice([("small", "small"), ("small", "tiny"), ("tiny", "medium"), ("medium", "tiny"), ("medium", "medium"),
                        ("tiny", "tiny"), ("large", "small"), ("small", "large")])
    files = rng.choice([1, 1, 2, 3])
    return {"class": name, "mode": rng.choice(MODES), "ctx": rng.choice(CTX) if spec.buffered else None, "files": files,
            "sizes": sizes, "seed": rng.randrange(2**40), "ops": rng.choice([1, 1, 2, 4]) + (files - 1),
            "missing": rng.random() < 0.15, "relative": files == 1 and rng.random() < 0.2,
            "name": rng.choice([None, None, None, "odd", "link"])}


def run_scenario(w, d, kind, limit=40):
    s = Scenario(w, d)
    try:
        if kind == "observe":
            observe(w, s)
        else:
            {"crash": crash, "ioerror": ioerror, "double": double}[kind](w, s, shim(), random.Random(d["seed"]), limit)
    finally:
        s.dispose()


def share(w, item):
    kind, name, block, n = item
    for k in range(n):
        rng = w.rng(kind, name, block, k)
        if kind in ("observe", "crash", "ioerror", "double"):
            d = scenario(rng, name)
            d["kind"] = kind
            call = lambda: run_scenario(w, d, kind)  # noqa: E731
        elif kind == "kill":
            spec = spec_by_name(name)
            d = {"kind": kind, "args": (name, rng.choice(MODES), rng.choice([None, "cls"]) if spec.buffered else None,
                                        rng.randrange(2**40), 12)}
            call = lambda: kill(w, *d["args"])  # noqa: E731
        else:
            spec = spec_by_name(name)
            d = {"kind": kind, "args": (name, (rng.random() < 0.5, rng.random() < 0.5),
                                        rng.choice([None, "obj", "cls"]) if spec.buffered else None,
                                        rng.choice(["root", "child", "reset"]), rng.choice(["digits", "digits", "object"]),
                                        rng.randrange(2**40))}
            call = lambda: unserializable(w, *d["args"])  # noqa: E731
        try:
            call()
        except Violation as v:
            w.report(f"{v.what} [{name}, {kind}, " + (f"{d['mode']}, {d['ctx']}]" if "mode" in d else "…]"), v.detail, d)
            return
        w.count(kind)
        if len(w.samples) < 2:
            w.sample(d)


def main():
    if not os.environ.get("VERIF_SHIM") and not os.environ.get("VERIF_NO_SHIM"):
        return with_shim("C08")
    import_library()
    run = Run("C08", level="fault_enumeration")
    if os.environ.get("VERIF_NO_SHIM"):
        run.notes.append("no C compiler: libc-level crashes skipped")
    f = 40 if run.tier == "thorough" else 2
    shares = []
    for name in NAMES:
        for b in range(2 * f):
            if os.environ.get("VERIF_SHIM"):
                shares.append(("crash", name, b, 3))
                shares.append(("ioerror", name, b, 2))
                shares.append(("double", name, b, 2))
            shares.append(("observe", name, b, 6))
            shares.append(("unserializable", name, b, 25))
        for b in range(f):
            shares.append(("kill", name, b, 2))
    run_workers(run, share, shares)
    return run.finish(RULE, minimum=2000, assumptions=[
        "a crash is the death of the process; the kernel and its page cache survive",
        "the two non-atomic modes are only checked for content that cannot be serialized"])


def replay(data):
    if not os.environ.get("VERIF_SHIM") and not os.environ.get("VERIF_NO_SHIM"):
        return with_shim("C08", sys.argv[2:])
    import_library()
    run = Run("C08")
    w = Worker(run, 0, run.scratch)
    try:
        if data["kind"] in ("observe", "crash", "ioerror", "double"):
            run_scenario(w, data, data["kind"], 10**6)
        elif data["kind"] == "kill":
            kill(w, *data["args"])
        else:
            unserializable(w, *data["args"])
    except Violation as v:
        print("reproduced:", v.what)
        print("VIOLATION property=C08 replay=-")
        return 1
    print("not reproduced")
    return 0
