"""Histories over several buffered files with contexts.

Steps (literals):

  ("file", f, step)              a step of the world of file f ("op", "grab", "raw", "new", "drop")
  ("enter", what, capacity)      what: ("cls", spec index) | ("obj", f, o) | ("all", f)
  ("exit", raising, order seed)  leave the innermost context, possibly through an exception
  ("cap", spec index, capacity)  set_buffer_capacity
"""
import json
import random

from .base import Inconclusive, Violation
from .values import MISSING, clone, same
from .world import Diverged, StepGen, World


class FileWorld(World):
    kept = False  # there are children of forgotten objects

    def droppable(self):
        return not self.kw

    def drop(self, obj, keep):
        self.kept |= keep
        super().drop(obj, keep)

    def close(self):
        self.stack = []
        super().close()


class BufferWorld:
    def __init__(self, specs, scratch, files, monitors=(), write_concern=False, defer=True):
        """files: list of (spec index, start content, number of objects)."""
        self.specs = specs
        self.defer = defer
        self.monitors = set(monitors)
        self.files = []
        inner = tuple(m for m in monitors if m in ("results", "reads", "backend", "content"))
        for i, start, k in files:
            fw = FileWorld(specs[i], scratch, start, n_objects=k, write_concern=write_concern, monitors=inner)
            fw.index = i
            fw.history = []
            fw.touched = False
            fw.mutated = False
            self.files.append(fw)
        self.stack = []  # (what, contexts, capacity before or None)
        self.cap0 = [s.cls.get_buffer_capacity() for s in specs]
        self.events = 0

    # -- state ------------------------------------------------------------
    def buffered(self, f):
        fw = self.files[f]
        for what, _, _ in self.stack:
            if what[0] == "cls":
                if what[1] == fw.index:
                    return True
            elif what[1] == f:
                return True
        return False

    def set_state(self):
        """Recompute which files are buffered; returns those that just left the state."""
        left = []
        for f, fw in enumerate(self.files):
            now = self.buffered(f)
            if now and not fw.stack:
                fw.stack = [1]
                fw.disk = fw.res.fingerprint()
                fw.disk_missing = fw.disk[0] is None
                fw.history = [clone(fw.model)]
                fw.touched = fw.mutated = fw.saved = False
            elif not now and fw.stack:
                fw.stack = []
                left.append(f)
        return left

    # -- steps ------------------------------------------------------------
    def possible(self, step):
        if step[0] == "file":
            return self.files[step[1]].possible(step[2])
        if step[0] == "exit":
            return bool(self.stack)
        return True

    def step(self, step):
        kind = step[0]
        if kind == "file":
            f, st = step[1], step[2]
            fw = self.files[f]
            if st[0] == "raw" and fw.stack:
                return
            if st[0] == "drop" and any(what[0] != "cls" and what[1] == f for what, _, _ in self.stack):
                return
            fw.step(st)
            if fw.stack and st[0] in ("op", "grab"):
                fw.touched = True
                if st[0] == "op":
                    from .ops import OPS

                    if OPS[st[4]][1]:
                        fw.mutated = True
                        fw.history.append(clone(fw.model))
        elif kind == "enter":
            self.enter(step[1], step[2])
        elif kind == "exit":
            self.exit(step[1], step[2])
        elif kind == "cap":
            self.specs[step[1]].cls.set_buffer_capacity(step[2])
            got = self.specs[step[1]].cls.get_buffer_capacity()
            if "sizes" in self.monitors and got != step[2]:
                raise Violation(f"set_buffer_capacity({step[2]}) reports {got}")
        self.events += 1
        self.observe(step)

    def enter(self, what, cap):
        before = None
        if what[0] == "cls":
            cls = self.specs[what[1]].cls
            if cap is not None:
                before = cls.get_buffer_capacity()
                ctxs = [cls.buffer_backend(cap)]
            else:
                ctxs = [cls.buffer_backend()]
        elif what[0] == "obj":
            ctxs = [self.files[what[1]].objs[what[2]].buffered]
        else:
            ctxs = [o.buffered for o in self.files[what[1]].objs]
        # the state of the files must be known before anything is buffered
        self.stack.append((what, ctxs, before))
        if what[0] != "cls" and self.files[what[1]].kept:
            # the objects of these children do not enter the context
            fw = self.files[what[1]]
            fw.handles = [{} for _ in fw.handles]
            fw.kept = False
        self.set_state()
        had = self.specs[what[1]].cls.get_buffer_capacity() if what[0] == "cls" else None
        for c in ctxs:
            c.__enter__()
        if what[0] == "cls" and "sizes" in self.monitors:
            got, want = self.specs[what[1]].cls.get_buffer_capacity(), had if cap is None else cap
            if got != want:
                raise Violation(f"capacity is {got} inside a context with capacity {cap}, it was {had}")

    def exit(self, raising, order):
        what, ctxs, before = self.stack.pop()
        ctxs = list(ctxs)
        random.Random(order).shuffle(ctxs)
        for c in ctxs:
            if raising:
                e = KeyError("from the body of the context")
                r = c.__exit__(KeyError, e, None)
                if r:
                    raise Violation("a buffered context swallows exceptions")
            else:
                c.__exit__(None, None, None)
        if before is not None and "sizes" in self.monitors:
            got = self.specs[what[1]].cls.get_buffer_capacity()
            if got != before:
                raise Violation(f"capacity is {got} after the context, it was {before}")
        left = self.set_state()
        for f in left:
            self.check_exit(f)

    def check_exit(self, f):
        if "exit" not in self.monitors:
            return
        fw = self.files[f]
        raw = fw.res.raw_read()
        # what was modified has to be written, even if nothing is left
        if raw is MISSING and fw.disk_missing and not fw.model and not fw.saved:
            return
        if not same(raw, fw.model):
            raise Violation(f"file {f} after leaving the buffered state: {raw!r}, expected {fw.model!r}")
        fw.exists = raw is not MISSING

    def observe(self, step):
        if "deferred" in self.monitors:
            for f, fw in enumerate(self.files):
                if not fw.stack:
                    continue
                if self.defer:
                    if fw.res.fingerprint() != fw.disk:
                        raise Violation(f"file {f} was written while it is buffered (step {step[:2]!r})")
                else:
                    raw = fw.res.raw_read()
                    if raw is MISSING:
                        if not fw.disk_missing:
                            raise Violation(f"file {f} disappeared while it is buffered")
                    elif not any(same(raw, h) for h in fw.history):
                        raise Violation(f"file {f} holds {raw!r}, which the collection never contained")
        if "sizes" in self.monitors:
            for i, s in enumerate(self.specs):
                self.check_size(i, s, step)

    def check_size(self, i, spec, step):
        cls = spec.cls
        got = cls.get_current_buffer_size()
        cap = cls.get_buffer_capacity()
        files = [fw for fw in self.files if fw.index == i]
        active = [fw for fw in files if fw.stack]
        if not active and got != 0:
            raise Violation(f"{spec.name}: buffer size {got} without any buffered context (after {step[:2]!r})")
        if got > cap:
            raise Violation(f"{spec.name}: buffer size {got} exceeds the capacity {cap} (after {step[:2]!r})")
        if got < 0:
            raise Violation(f"{spec.name}: buffer size {got} is negative")
        buf = getattr(cls, "_buffer", None)
        keys = None
        if isinstance(buf, dict) and all(isinstance(k, str) for k in buf):
            keys = set(buf)
        dirty = [fw for fw in active if not self.on_disk(fw)]
        if spec.buffered == "serialized":
            sizes = {fw.res.filename: len(json.dumps(fw.model).encode()) for fw in active if fw.touched}
            low = sum(sizes[fw.res.filename] for fw in dirty)
            if keys is not None and keys <= {fw.res.filename for fw in files}:
                bad = keys - set(sizes)
                if bad:
                    raise Violation(f"{spec.name}: {len(bad)} file(s) in the buffer which no operation accessed")
                want = sum(sizes[k] for k in keys)
                if got != want:
                    raise Violation(f"{spec.name}: buffer size {got}, the buffered files encode to {want} bytes "
                                    f"(after {step[:2]!r})")
            else:
                sums = {0}
                for v in sizes.values():
                    sums |= {x + v for x in sums}
                if got not in sums:
                    raise Violation(f"{spec.name}: buffer size {got} is not a sum of {sorted(sizes.values())}")
            if got < low:
                raise Violation(f"{spec.name}: buffer size {got}, but unflushed files encode to {low} bytes")
        else:
            low = len(dirty)
            high = sum(fw.mutated for fw in active)
            if not low <= got <= high:
                raise Violation(f"{spec.name}: buffer size {got}, but {low} to {high} files have unflushed "
                                f"modifications (after {step[:2]!r})")
            if keys is not None:
                try:
                    want = sum(bool(v["modified"]) for v in buf.values())
                except Exception:
                    want = got
                if got != want:
                    raise Violation(f"{spec.name}: buffer size {got}, {want} entries are marked as modified")

    @staticmethod
    def on_disk(fw):
        raw = fw.res.raw_read()
        if raw is MISSING:
            return not fw.model
        return same(raw, fw.model)

    def close(self):
        while self.stack:
            what, ctxs, _ = self.stack.pop()
            for c in ctxs:
                try:
                    c.__exit__(None, None, None)
                except Exception:
                    pass
        for s, c in zip(self.specs, self.cap0):
            try:
                s.cls.set_buffer_capacity(c)
            except Exception:
                pass
            reset_buffer(s.cls)
        for fw in self.files:
            fw.close()


def reset_buffer(cls):
    """Forget what a failed history left behind (best effort, between histories only)."""
    for name in ("_buffer", "_buffered_collections"):
        d = getattr(cls, name, None)
        if isinstance(d, dict):
            d.clear()
    if getattr(cls, "_CURRENT_BUFFER_SIZE", 0) != 0:
        cls._CURRENT_BUFFER_SIZE = 0


class BufferGen:
    def __init__(self, rng, specs, kinds=("cls", "obj"), p_ctx=0.15, max_ctx=5, p_cap=0.0, caps=(0,), p_enter_cap=0.0,
                 p_raise=0.1, **kw):
        self.rng = rng
        self.specs = specs
        self.kinds = kinds
        self.p_ctx, self.max_ctx, self.p_cap, self.p_enter_cap = p_ctx, max_ctx, p_cap, p_enter_cap
        self.caps = caps
        self.p_raise = p_raise
        self.gens = [StepGen(rng, s, **kw) for s in specs]

    def next(self, w):
        r = self.rng
        x = r.random()
        if x < self.p_ctx:
            if w.stack and (len(w.stack) >= self.max_ctx or r.random() < 0.45):
                return ("exit", r.random() < self.p_raise, r.randrange(1000))
            kind = r.choice(self.kinds)
            f = r.randrange(len(w.files))
            if kind == "cls":
                cap = r.choice(self.caps) if r.random() < self.p_enter_cap else None
                return ("enter", ("cls", w.files[f].index), cap)
            if kind == "obj":
                return ("enter", ("obj", f, r.randrange(len(w.files[f].objs))), None)
            return ("enter", ("all", f), None)
        if x < self.p_ctx + self.p_cap:
            return ("cap", r.randrange(len(self.specs)), r.choice(self.caps))
        f = r.randrange(len(w.files))
        return ("file", f, self.gens[w.files[f].index].next(w.files[f]))


def run_buffer_history(specs, scratch, cfg, gen=None, steps=None, n_steps=40):
    w = BufferWorld(specs, scratch, **cfg)
    done = []
    try:
        if steps is None:
            for _ in range(n_steps):
                try:
                    st = gen.next(w)
                except Exception as e:
                    raise Inconclusive(f"generator: {e!r}") from e
                done.append(st)
                w.step(st)
        else:
            for st in steps:
                if not w.possible(st):
                    continue
                done.append(st)
                w.step(st)
        while w.stack:
            st = ("exit", False, 0)
            done.append(st)
            w.step(st)
        if "exit" in w.monitors:
            for f, fw in enumerate(w.files):
                for i, o in enumerate(fw.objs):
                    if not same(o(), fw.model):
                        raise Violation(f"at the end object {i} on file {f} shows {o()!r}, expected {fw.model!r}")
        return w, done
    except Violation as v:
        v.steps = done
        raise
    except Diverged:
        return w, done
    except Inconclusive:
        raise
    except Exception as e:
        import traceback

        v = Violation(f"unexpected {type(e).__name__}: {e}", traceback.format_exc())
        v.steps = done
        raise v
    finally:
        w.close()


def buffer_signature(w, done):
    out = []
    for s in done:
        if s[0] == "file":
            st = s[2]
            out.append((s[1], st[4], st[1], len(st[3]), st[2]) if st[0] == "op" else (s[1], st[0]))
        else:
            out.append(s[:2])
    return tuple(out)
