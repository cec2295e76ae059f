"""Bootstrap, reporting, evidence and worker processes."""
import ast
import atexit
import contextlib
import ctypes
import faulthandler
import json
import mmap
import os
import pprint
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "synced_collections") + os.sep
NPROC = max(1, min(8, os.cpu_count() or 1))


class Inconclusive(Exception):
    """The check could not observe what it needs; not a verdict."""


def import_library():
    """Import the package from the working tree of REPO."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import synced_collections
    import synced_collections.backends.collection_json  # noqa: F401

    # other imports reset the filters; warnings never matter here
    warnings.showwarning = lambda *a, **k: None
    where = os.path.dirname(os.path.abspath(synced_collections.__file__)) + os.sep
    if where != PKG:
        raise Inconclusive(f"library imported from {where}, expected {PKG}")
    return synced_collections


class Violation(Exception):
    """A monitor saw the property broken."""

    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail


def load_known(prop):
    """Return {mechanism key: text} of the open findings of this property."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("open: "):
                    # open: property=C12 key=<mechanism> <what fails>
                    parts = line[len("open: ") :].split(" ", 2)
                    if parts[0] == f"property={prop}":
                        known[parts[1][len("key=") :]] = parts[2]
    return known


class Run:
    """One run of one check: configuration, counters, verdict."""

    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "0"))
        except ValueError:
            self.seed = abs(hash(os.environ["VERIF_SEED"])) % (2**31)
        self.t0 = time.time()
        self.scratch = make_scratch()
        self.counters = {}
        self.samples = []
        self.signatures = set()
        self.violations = []
        self.known = load_known(prop)
        self.known_seen = {}
        self.notes = []

    # -- counting ---------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def merge(self, result):
        """Merge the dict a worker returned."""
        for k, v in result.get("counters", {}).items():
            self.count(k, v)
        self.signatures.update(result.get("signatures", ()))
        for s in result.get("samples", ()):
            if len(self.samples) < 12:
                self.samples.append(s)
        for key, what in result.get("known_seen", {}).items():
            self.known_seen.setdefault(key, what)
        self.violations.extend(result.get("violations", ()))

    # -- verdict ----------------------------------------------------------
    def finish(self, rule, evaluations="evaluations", assumptions=None, minimum=1):
        """Write evidence, print the verdict lines and return the exit code."""
        ev = self.counters.get(evaluations, 0)
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": ev,
                "distinct_nontrivial": len(self.signatures),
                "rule": rule,
                "samples": self.samples[:12],
                "counters": dict(sorted(self.counters.items())),
            },
            "wall_s": round(time.time() - self.t0, 2),
            "assumptions": assumptions or [],
            "violations": len(self.violations),
        }
        evidir = os.path.join(VERIF, "evidence")
        os.makedirs(evidir, exist_ok=True)
        tmp = os.path.join(evidir, f".{self.prop}.json.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write("\n")
        os.replace(tmp, os.path.join(evidir, f"{self.prop}.json"))

        for key, text in self.known.items():
            if key in self.known_seen:
                print(f"KNOWN-FINDING: property={self.prop} {text}")
            else:
                print(f"note: listed finding {key} was not observed in this run")
        if self.violations:
            v = self.violations[0]
            path = self.write_replay(v)
            print(f"violated: {v['what']}")
            if v.get("detail"):
                print(str(v["detail"])[:2000])
            for other in self.violations[1:6]:
                print(f"also: {other['what']}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            return 1
        if ev < minimum or not self.signatures:
            print(
                f"INCONCLUSIVE property={self.prop}: only {ev} evaluations "
                f"({len(self.signatures)} distinct), need {minimum}"
            )
            return 3
        print(
            f"held: property={self.prop} tier={self.tier} seed={self.seed} "
            f"evaluations={ev} distinct={len(self.signatures)} "
            f"wall={time.time() - self.t0:.1f}s"
        )
        return 0

    def write_replay(self, v):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{self.seed}-{self.tier}.txt")
        with open(path, "w") as f:
            f.write(f"# property={self.prop} seed={self.seed} tier={self.tier}\n")
            f.write(f"# {v['what']}\n".replace("\n#", "\n# "))
            for line in str(v.get("detail", "")).splitlines():
                f.write(f"# {line}\n")
            f.write(pprint.pformat(v.get("replay"), width=100, sort_dicts=False))
            f.write("\n")
        return path


def read_replay(path):
    with open(path) as f:
        text = "".join(line for line in f if not line.startswith("#"))
    return ast.literal_eval(text)


_scratches = []


def make_scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="verif-sc-", dir=base)
    pid = os.getpid()
    _scratches.append((pid, d))
    return d


@atexit.register
def _cleanup():
    for pid, d in _scratches:
        if pid == os.getpid() and os.path.basename(d).startswith("verif-sc-"):
            shutil.rmtree(d, ignore_errors=True)


class Worker:
    """Collects what one worker process observed."""

    def __init__(self, run, index, scratch):
        self.run = run
        self.prop = run.prop
        self.tier = run.tier
        self.seed = run.seed
        self.index = index
        self.scratch = scratch
        self.known = run.known
        self.counters = {}
        self.samples = []
        self.signatures = set()
        self.violations = []
        self.known_seen = {}
        self.deadline = None
        self.beat = None
        self._n = 0

    def tick(self):
        """Tell the parent process that this one is making progress."""
        if self.beat is not None:
            self.beat[self.index] = time.monotonic()

    def rng(self, *parts):
        self.tick()
        return random.Random(repr((self.seed, self.prop) + parts))

    def count(self, name, n=1):
        self.tick()
        self.counters[name] = self.counters.get(name, 0) + n

    def sig(self, *parts):
        self.signatures.add(hash(repr(parts)) & 0xFFFFFFFFFFFF)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def path(self, stem="r"):
        self._n += 1
        return os.path.join(self.scratch, f"{stem}{self._n}")

    def fresh_dir(self):
        p = self.path("d")
        os.mkdir(p)
        return p

    def report(self, what, detail=None, replay=None, key=None):
        """Record a violation, or a sighting of a listed finding."""
        if key is not None and key in self.known:
            self.known_seen.setdefault(key, what)
            return
        self.violations.append({"what": what, "detail": detail, "replay": replay})

    def result(self):
        return {
            "counters": self.counters,
            "samples": self.samples,
            "signatures": list(self.signatures),
            "violations": self.violations[:5],
            "known_seen": self.known_seen,
        }


DEADLINE = 720  # seconds after which no new shares are started
STALL = 150  # seconds without any progress


def kill_stuck(pid, stack):
    """Kill a worker and the processes it started; returns what it was doing."""
    def children(p):
        try:
            with open(f"/proc/{p}/task/{p}/children") as f:
                kids = [int(x) for x in f.read().split()]
        except OSError:
            kids = []
        return kids + [g for k in kids for g in children(k)]

    with contextlib.suppress(OSError):
        os.kill(pid, signal.SIGUSR2)
    time.sleep(1)
    for p in children(pid) + [pid]:
        with contextlib.suppress(OSError):
            os.kill(p, signal.SIGKILL)
    with contextlib.suppress(OSError):
        os.waitpid(pid, 0)
    try:
        with open(stack) as f:
            return f.read()[:20000]
    except OSError:
        return ""


def run_workers(run, func, shares, nproc=None):
    """Run func(worker, share) for each share in forked processes; merge results.

    Shares are handed out dynamically. A worker that dies makes the run
    inconclusive. One that gets stuck is killed and reported: an operation that
    never returns violates each of the properties. When the time is up, the
    remaining shares are left out.
    """
    import multiprocessing as mp

    ctx = mp.get_context("fork")
    nproc = nproc or NPROC
    shares = list(shares)
    tasks = ctx.SimpleQueue()
    out = ctx.SimpleQueue()
    nproc = min(nproc, max(1, len(shares)))
    beat = (ctypes.c_double * nproc).from_buffer(mmap.mmap(-1, 8 * nproc))
    beat[:] = [time.monotonic()] * nproc
    left_out = ctx.Value("i", 0)

    def body(index):
        code = 0
        try:
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            scratch = os.path.join(run.scratch, f"w{index}")
            os.makedirs(scratch, exist_ok=True)
            w = Worker(run, index, scratch)
            w.beat = beat
            with contextlib.suppress(Exception):
                faulthandler.register(signal.SIGUSR2, open(scratch + ".stack", "w"), all_threads=True)
            err = None
            while True:
                item = tasks.get()
                if item is None:
                    break
                if time.time() - run.t0 > DEADLINE:
                    with left_out.get_lock():
                        left_out.value += 1
                    continue
                w.tick()
                try:
                    func(w, shares[item])
                except Exception:
                    err = traceback.format_exc()
                    break
                if len(w.violations) >= 3:
                    break
            out.put((index, w.result(), err))
        except BaseException:
            traceback.print_exc()
            code = 70
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)

    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for i in range(nproc):
        pid = os.fork()
        if pid == 0:
            body(i)
        pids[pid] = i
    # feed (SimpleQueue pipe may block when full: feed from a thread)
    import threading

    def feed():
        for k in range(len(shares)):
            tasks.put(k)
        for _ in range(nproc):
            tasks.put(None)

    t = threading.Thread(target=feed, daemon=True)
    t.start()
    alive = dict(pids)
    errors = []
    got = 0
    while got < nproc and alive:
        if out._reader.poll(0.2):
            index, result, err = out.get()
            got += 1
            run.merge(result)
            if err:
                errors.append(err)
        else:
            for pid in list(alive):
                r, status = os.waitpid(pid, os.WNOHANG)
                if r:
                    del alive[pid]
                elif time.monotonic() - beat[alive[pid]] > STALL:
                    stack = kill_stuck(pid, os.path.join(run.scratch, f"w{alive[pid]}.stack"))
                    del alive[pid]
                    run.violations.append({"what": f"an operation did not return within {STALL} s", "detail": stack, "replay": None})
    # drain anything left
    while got < nproc and out._reader.poll(0.2):
        index, result, err = out.get()
        got += 1
        run.merge(result)
        if err:
            errors.append(err)
    for pid in list(alive):
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    if left_out.value:
        run.notes.append(f"out of time: {left_out.value} of {len(shares)} shares left out")
    if errors and not run.violations:
        raise Inconclusive("worker failed:\n" + errors[0])
    if got < nproc and not run.violations:
        raise Inconclusive(f"{nproc - got} worker process(es) died")
    return run


def shrink(items, fails, limit_s=8.0):
    """Greedy removal of list items while fails(items) stays true."""
    t0 = time.time()
    items = list(items)
    size = max(1, len(items) // 2)
    while size >= 1 and time.time() - t0 < limit_s:
        i = 0
        changed = False
        while i < len(items) and time.time() - t0 < limit_s:
            cand = items[:i] + items[i + size :]
            try:
                bad = fails(cand)
            except Exception:
                bad = False
            if bad:
                items = cand
                changed = True
            else:
                i += size
        if not changed or size > 1:
            size //= 2
    return items
