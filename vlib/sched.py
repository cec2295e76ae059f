"""A controlling scheduler: real threads, one runs at a time, preempted at chosen library lines.

install() must be called before the library is imported: it replaces the lock
factories of `threading` so that locks created by library code are owned by
the scheduler. Locks created elsewhere stay real ones. Blocking on something the scheduler
does not know (a file lock, say) is noticed by a watchdog, which then lets another thread run.
"""
import _thread
import os
import sys
import threading
import time

from .base import PKG

TOOL = 3
_real_rlock = threading.RLock
_real_lock = threading.Lock
_tasks = {}  # thread ident -> Task
HELD = {}  # id -> lock
BAD_RELEASES = []
_sched = None  # the running scheduler


class Abort(BaseException):
    """Ends a thread of a schedule that cannot go on."""


class MainBlocked(Exception):
    """The main thread would have to wait for a lock nobody will release."""


class SLock:
    """A lock the scheduler knows."""

    reentrant = True

    def __init__(self, where):
        self.where = where
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        task = _tasks.get(me)
        s = _sched
        if task is not None and s is not None:
            s.point(task, "acquire")
            s.acquires += 1
            if self.owner != me:
                held = [k for k, x in HELD.items() if x.owner == me]
                if held:
                    s.edges.append((s.step, task.index, held, id(self)))
        if self.owner == me and self.reentrant:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            if task is None or s is None:
                if timeout is not None and timeout >= 0:
                    return False
                raise MainBlocked(f"lock {self.where} is held by thread {self.owner}")
            s.contended += 1
            if timeout is not None and 0 <= timeout <= 60 and s.step * 2654435761 >> 7 & 1:
                # whoever holds the lock may be held up for longer than that
                return False
            while self.owner is not None:
                if not s.block(task, self, timeout is not None and timeout >= 0):
                    return False
        self.owner = me
        self.count = 1
        HELD[id(self)] = self
        return True

    def release(self):
        me = _thread.get_ident()
        if self.owner is None or (self.reentrant and self.owner != me):
            BAD_RELEASES.append(self.where)
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            HELD.pop(id(self), None)
            task = _tasks.get(me)
            if task is not None and _sched is not None:
                _sched.point(task, "release")

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.RLock' object")


class SPlainLock(SLock):
    reentrant = False


def _from_library():
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return None
        if f.f_code.co_filename.startswith(PKG):
            return f"{os.path.basename(f.f_code.co_filename)}:{f.f_lineno}"
        if not f.f_code.co_filename.endswith(os.sep + "threading.py"):
            return None
        f = f.f_back
    return None


def _rlock():
    where = _from_library()
    return SLock(where) if where else _real_rlock()


def _lock():
    where = _from_library()
    return SPlainLock(where) if where else _real_lock()


def install():
    """Replace the lock factories; call before the library is imported."""
    if any(m.startswith("synced_collections") for m in sys.modules):
        raise RuntimeError("the library is imported already")
    threading.RLock = _rlock
    threading.Lock = _lock


def held_locks():
    return list(HELD.values())


def free_locks():
    for x in HELD.values():
        x.owner, x.count = None, 0
    HELD.clear()


class Task:
    """One thread of the pool."""

    def __init__(self, pool, index):
        self.pool = pool
        self.index = index
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.job = None
        self.ident = None
        self.tid = None
        self.state = "idle"  # ready blocked external done
        self.waiting = None
        self.timed = False
        self.timeout_fired = False
        self.prio = 0
        self.steps = 0
        self.spin = 0
        self.error = None
        threading.Thread(target=self._loop, daemon=True).start()

    def _loop(self):
        self.ident = _thread.get_ident()
        self.tid = threading.get_native_id()
        _tasks[self.ident] = self
        while True:
            self.sem.acquire()
            try:
                s = self.job[0]
                if s.aborting:
                    raise Abort
                self.job[1]()
            except Abort:
                self.error = "aborted"
            except BaseException as e:  # noqa: BLE001
                self.error = e
            s.finished(self)


class Scheduler:
    """Runs jobs (callables without arguments) under a priority schedule.

    prios: one number per job, the highest runnable one runs.
    changes: {step: n}: at this global step the running thread gets priority -n.
    """

    def __init__(self, granularity="line"):
        self.tasks = []
        self.pool = []
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.granularity = granularity
        self.aborting = False
        self.acquires = self.contended = 0

    # -- called by the controlled threads ---------------------------------------
    def point(self, task, what):
        """A possible preemption."""
        if self.aborting:
            if what == "acquire":
                raise Abort
            return
        if task is not self.current:
            # it was blocked outside and lost its turn meanwhile
            task.state = "ready"
            self.wait_turn(task)
        self.step += 1
        task.steps += 1
        task.spin += 1
        if what == "acquire" or what == "release":
            self.marks.append(self.step)
        n = self.changes.get(self.step)
        if n is None and task.spin > 200000:
            # busy waiting
            task.spin = 0
            n = self.floor = self.floor + 1
        if n is not None:
            self.switches += 1
            task.prio = -n
            self.where.append((task.index, self.step, what))
            nxt = self.pick()
            if nxt is not task:
                self.handover(task, nxt)

    def pick(self):
        best = None
        for t in self.tasks:
            if t.state == "ready" and (best is None or t.prio > best.prio):
                best = t
            elif t.state == "blocked" and t.waiting.owner is None and (best is None or t.prio > best.prio):
                best = t
        return best

    def handover(self, task, nxt):
        self.current = nxt
        nxt.spin = 0
        nxt.sem.release()
        task.sem.acquire()
        if self.aborting:
            raise Abort

    def wait_turn(self, task):
        self.waiters += 1
        task.sem.acquire()
        self.waiters -= 1
        if self.aborting:
            raise Abort

    def block(self, task, lock, timed):
        """Wait for a lock; False when the wait timed out."""
        if self.aborting:
            raise Abort
        task.state, task.waiting, task.timed = "blocked", lock, timed
        nxt = self.pick()
        if nxt is None:
            waits = [t for t in self.tasks if t.state == "blocked" and t.timed]
            if any(t.state == "external" for t in self.tasks):
                # someone outside may still release it
                self.current = None
                task.sem.acquire()
                if self.aborting:
                    raise Abort
            elif waits:
                nxt = waits[0]
                nxt.timeout_fired = True
            else:
                self.deadlock = [(t.index, t.waiting.where, self.owner_index(t.waiting)) for t in self.tasks if t.state == "blocked"]
                self.abort(task)
                raise Abort
        if nxt is not None and nxt is not task:
            self.handover(task, nxt)
        task.state, task.waiting = "ready", None
        if task.timeout_fired:
            task.timeout_fired = False
            return False
        return True

    def owner_index(self, lock):
        t = _tasks.get(lock.owner)
        return t.index if t is not None else "main"

    def finished(self, task):
        task.state = "done"
        if self.aborting:
            self.left -= 1
            if self.left == 0:
                self.main.release()
            return
        self.left -= 1
        if self.left == 0:
            self.main.release()
            return
        if task is not self.current:
            return
        nxt = self.pick()
        if nxt is None:
            if any(t.state == "external" for t in self.tasks):
                self.current = None
                return
            waits = [t for t in self.tasks if t.state == "blocked" and t.timed]
            if waits:
                nxt = waits[0]
                nxt.timeout_fired = True
            else:
                self.deadlock = [(t.index, t.waiting.where, self.owner_index(t.waiting)) for t in self.tasks if t.state == "blocked"]
                self.abort(task)
                return
        self.current = nxt
        nxt.spin = 0
        nxt.sem.release()

    def abort(self, me):
        self.aborting = True
        for t in self.tasks:
            if t is not me and t.state in ("ready", "blocked"):
                t.sem.release()

    # -- called by the main thread ------------------------------------------------
    def run(self, jobs, prios, changes=None):
        """Run the jobs to the end; returns False after a deadlock."""
        global _sched
        while len(self.pool) < len(jobs):
            self.pool.append(Task(self, len(self.pool)))
        self.tasks = self.pool[: len(jobs)]
        self.step = self.switches = self.waiters = 0
        self.floor = 1000
        self.where = []
        self.marks = []  # steps next to lock operations
        self.edges = []  # (step, thread, locks held, lock wanted)
        self.changes = changes or {}
        self.deadlock = None
        self.stuck = False
        self.aborting = False
        self.left = len(jobs)
        for t, j, p in zip(self.tasks, jobs, prios):
            t.job = (self, j)
            t.state, t.prio, t.steps, t.spin, t.error = "ready", p, 0, 0, None
            t.waiting, t.timed, t.timeout_fired = None, False, False
        _sched = self
        try:
            self.current = self.pick()
            self.current.sem.release()
            self.watch()
        finally:
            _sched = None
        return self.deadlock is None and not self.stuck

    def inversions(self):
        """Steps at which a thread wants a lock that another thread holds while it wants one held here."""
        return [a[0] for a in self.edges if any(a[1] != b[1] and a[3] in b[2] and b[3] in a[2] for b in self.edges)]

    def watch(self):
        """Wait for the end; help when a thread is blocked outside the scheduler."""
        last, idle, t_stuck = -1, 0, None
        while not self.main.acquire(timeout=0.5):
            if self.step != last:
                last, t_stuck = self.step, None
                continue
            cur = self.current
            if cur is not None and cur.state == "ready" and not self.sleeping(cur):
                continue
            if t_stuck is None:
                t_stuck = time.monotonic()
            if cur is not None and cur.state == "ready":
                cur.state = "external"
                self.externals += 1
            nxt = self.pick()
            if nxt is not None and nxt is not cur:
                self.current = nxt
                nxt.sem.release()
            elif time.monotonic() - t_stuck > 60:
                # nothing moved for a minute and every thread sleeps
                self.stuck = True
                return

    externals = 0

    @staticmethod
    def sleeping(task):
        try:
            with open(f"/proc/self/task/{task.tid}/stat") as f:
                return f.read().rsplit(")", 1)[1].split()[0] in "SD"
        except (OSError, IndexError):
            return True


# -- preemption points in library code -----------------------------------------------
def _at(code, where):
    if not code.co_filename.startswith(PKG):
        return sys.monitoring.DISABLE
    s = _sched
    if s is not None:
        t = _tasks.get(_thread.get_ident())
        if t is not None:
            s.point(t, where)


_on = None


def monitor(granularity):
    """Turn preemption points on ("line", "instruction") or off (None)."""
    global _on
    mon = sys.monitoring
    if granularity == _on:
        return
    if _on is None:
        mon.use_tool_id(TOOL, "verif-sched")
    ev = {None: 0, "line": mon.events.LINE, "instruction": mon.events.INSTRUCTION}[granularity]
    for e in (mon.events.LINE, mon.events.INSTRUCTION):
        mon.register_callback(TOOL, e, _at if e == ev else None)
    mon.set_events(TOOL, ev)
    mon.restart_events()
    if granularity is None:
        mon.free_tool_id(TOOL)
    _on = granularity
