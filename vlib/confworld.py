"""Buffered histories with an outside writer, judged by a set of hypotheses per file.

When a forced flush happens it is open whether a file stays in the buffer, and when a call fails
because of someone else's conflict it is open whether it was applied. So each file has a set of
hypotheses; every observation (results of reads, what the library wrote, which files an error
names) removes those that do not agree with it, and none may be left over.

  ("enter", i) / ("exit", i, raised)     i: "cls" or the file whose object's context is meant
  ("read", file, object, which) / ("mutate", file, object, how, number)
  ("change", file, number, how, time difference)
  ("cap", n)                             set_buffer_capacity
"""
import os
import random
from collections import namedtuple

from .base import Violation
from .bufworld import reset_buffer
from .resources import Resource
from .values import MISSING, clone, same
from .world import tweak

T0 = 1_600_000_000_123_456_789
# inbuf: is in the buffer; stale: changed outside since then; touched: modified there;
# base: content when it entered the buffer; content: content in the buffer
Hyp = namedtuple("Hyp", "inbuf stale touched base content")
OUT = Hyp(False, False, False, None, None)
MAX = 64


class File:
    pass


class ConfWorld:
    def __init__(self, spec, scratch, files, mode, mutate, write_concern=False):
        self.spec = spec
        self.cls = spec.cls
        self.mode = mode
        self.mutate = mutate
        self.files = []
        self.ctx = {}
        self.events = 0
        self.conflicts = 0
        self.cap0 = self.cls.get_buffer_capacity()
        self.empty = {} if spec.kind == "dict" else []
        for start, k in files:
            f = File()
            f.res = Resource(spec, scratch, write_concern)
            f.disk = start
            if start is not MISSING:
                f.res.raw_write(start)
                os.utime(f.res.filename, ns=(T0, T0))
            f.objs = [f.res.make() for _ in range(k)]
            f.name = f.res.filename
            f.hyps = [OUT]
            f.seen = set()
            f.print = f.res.fingerprint()
            self.files.append(f)

    def bad(self, msg):
        raise Violation(msg)

    # -- hypotheses ---------------------------------------------------------
    def narrow(self, f, hyps, why):
        uniq = []
        for h in hyps:
            if not any(h[:3] == g[:3] and _eq(h.base, g.base) and _eq(h.content, g.content) for g in uniq):
                uniq.append(h)
        if not uniq:
            self.bad(f"file {self.files.index(f)}: {why}; "
                     f"before: disk {_show(f.disk)}, " + " or ".join(map(self.describe, f.hyps[:4])))
        f.hyps = uniq[:MAX]

    @staticmethod
    def describe(h):
        if not h.inbuf:
            return "not in the buffer"
        return (f"buffered {_show(h.content)} ({'modified' if h.touched else 'only read'}"
                f"{', changed by someone else' if h.stale else ''})")

    def must(self, h):
        """Would a flush have to deal with it: True, False or None (open)."""
        if not (h.inbuf and h.touched):
            return False
        if h.base is MISSING:
            return True if h.content else None
        return True if not same(h.base, h.content) else None

    def load(self, f, h):
        if h.inbuf:
            return h
        c = clone(self.empty) if f.disk is MISSING else clone(f.disk)
        return Hyp(True, False, False, f.disk, c)

    def buffered(self, f):
        return "cls" in self.ctx or self.files.index(f) in self.ctx

    # -- what a flush may have done -----------------------------------------
    def after(self, named, why, target=None, applied=None, flushed=()):
        """Bring the hypotheses in line with what can be seen after a call.

        named: files of the error; target, applied: hypotheses for the file the call was made on;
        flushed: files which must have been flushed.
        """
        known = {f.name for f in self.files}
        if not set(named) <= known:
            self.bad(f"{why}: the error names an unknown file: {sorted(set(named) - known)}")
        for f in self.files:
            hyps = applied if f is target else f.hyps
            fp = f.res.fingerprint()
            new = []
            if f.name in named:
                self.conflicts += 1
                if fp != f.print:
                    self.bad(f"{why}: the conflicting file {self.files.index(f)} was written: {f.res.raw_read()!r}")
                for h in hyps:
                    if h.stale and self.must(h) is not False:
                        new.append(OUT)
                        if f not in flushed:
                            new.append(h)
                self.narrow(f, new, f"{why}: named as conflicting")
            elif fp != f.print:
                raw = f.res.raw_read()
                for h in hyps:
                    if not h.stale and self.must(h) is not False and same(raw, h.content):
                        new.append(OUT)
                        if f not in flushed or self.buffered(f):
                            new.append(Hyp(True, False, False, raw, clone(raw)))
                self.narrow(f, new, f"{why}: written with {raw!r}")
                f.disk = raw
                f.print = fp
            else:
                for h in hyps:
                    if f in flushed and self.must(h):
                        continue
                    if self.must(h) is not True:
                        new.append(OUT)
                    if f not in flushed or (self.buffered(f) and not h.touched):
                        new.append(h)
                    if f in flushed and self.buffered(f) and h.touched:
                        new.append(h._replace(touched=False))
                self.narrow(f, new, f"{why}: neither written nor named as conflicting")
        self.events += 1

    # -- steps ----------------------------------------------------------------
    def possible(self, s):
        if s[0] == "enter":
            return s[1] not in self.ctx
        if s[0] == "exit":
            return s[1] in self.ctx
        return True

    def step(self, s):
        getattr(self, "do_" + s[0])(*s[1:])

    def do_enter(self, i):
        c = self.cls.buffer_backend() if i == "cls" else self.files[i].objs[0].buffered
        c.__enter__()
        self.ctx[i] = c
        self.after((), f"entering the context ({i})")

    def do_exit(self, i, raised):
        from synced_collections.errors import BufferedError, MetadataError

        c = self.ctx.pop(i)
        exc = (KeyError, KeyError("x"), None) if raised else (None, None, None)
        named = ()
        why = f"leaving the context ({i})"
        try:
            if c.__exit__(*exc):
                self.bad(f"{why} swallowed an exception of the body")
        except MetadataError as e:
            if i == "cls":
                self.bad(f"{why} raised MetadataError")
            if e.filename != self.files[i].name:
                self.bad(f"{why} raised MetadataError for another file")
            named = {e.filename}
        except BufferedError as e:
            if i != "cls":
                self.bad(f"{why} raised BufferedError")
            named = set(e.files)
            if not named:
                self.bad(f"{why} raised an empty BufferedError")
        self.after(named, why, flushed=[f for f in self.files if not self.buffered(f)])

    def do_cap(self, n):
        from synced_collections.errors import BufferedError

        named = ()
        try:
            self.cls.set_buffer_capacity(n)
        except BufferedError as e:
            named = set(e.files)
            if not named:
                self.bad("set_buffer_capacity raised an empty BufferedError")
        self.after(named, f"set_buffer_capacity({n})", flushed=self.files if n < 0 else ())

    def call(self, f, func, why):
        from synced_collections.errors import BufferedError

        try:
            return func(), ()
        except BufferedError as e:
            if not e.files:
                self.bad(f"{why} raised an empty BufferedError")
            return None, set(e.files)

    def do_read(self, i, k, which):
        f = self.files[i]
        o = f.objs[k % len(f.objs)]
        why = f"reading file {i}"
        if not self.buffered(f):
            got = o()
            want = self.empty if f.disk is MISSING else f.disk
            if not same(got, want):
                self.bad(f"{why} outside any context gave {got!r}, on disk is {want!r}")
            self.after((), why)
            return
        func = [o.__call__, lambda: len(o), lambda: list(o), lambda: repr(o)][which % 4]
        got, named = self.call(f, func, why)
        hyps = []
        for h in f.hyps:
            if named:
                hyps.append(h)
            h = self.load(f, h)
            c = h.content
            if not named and which % 4 == 0 and not same(got, c):
                continue
            if not named and which % 4 == 1 and got != len(c):
                continue
            hyps.append(h)
        if not hyps:
            self.narrow(f, [], f"{why} gave {got!r}")
        self.after(named, why, f, hyps)

    def do_mutate(self, i, k, how, u):
        f = self.files[i]
        o = f.objs[k % len(f.objs)]
        why = f"{how} on file {i}"
        if not self.buffered(f):
            self.mutate(o, how, u)
            c = clone(self.empty) if f.disk is MISSING else clone(f.disk)
            self.mutate(c, how, u)
            raw = f.res.raw_read()
            if raw is MISSING or not same(raw, c):
                self.bad(f"{why} outside any context: the file holds {_show(raw)}, expected {c!r}")
            f.disk = raw
            f.print = f.res.fingerprint()
            self.after((), why)
            return
        _, named = self.call(f, lambda: self.mutate(o, how, u), why)
        hyps = []
        for h in f.hyps:
            h = self.load(f, h)
            if named:
                hyps.append(h)
            c = clone(h.content)
            self.mutate(c, how, u)
            hyps.append(h._replace(touched=True, content=c))
        self.after(named, why, f, hyps)

    def do_change(self, i, n, how, dt):
        f = self.files[i]
        rng = random.Random(n)
        new = clone(self.empty) if f.disk is MISSING else clone(f.disk)
        if not (how == "same_size" and tweak(rng, new)):
            if isinstance(new, dict):
                if how == "shrink" and new:
                    del new[rng.choice(list(new))]
                new[f"out{n % 89}"] = n
            else:
                if how == "shrink" and new:
                    del new[rng.randrange(len(new))]
                new.append({"out": n})
        exists = f.disk is not MISSING
        stamp = T0
        if exists:
            st = os.stat(f.name)
            stamp = st.st_mtime_ns
            f.seen.add((st.st_size, stamp))
        f.res.raw_write(new, 3 if how == "in_place" else 0)
        # Size and time together are new, also after several changes in a row.
        size = os.path.getsize(f.name)
        while (size, stamp + dt) in f.seen:
            dt += 1_000_000
        f.seen.add((size, stamp + dt))
        os.utime(f.name, ns=(stamp + dt, stamp + dt))
        f.disk = clone(new)
        f.print = f.res.fingerprint()
        f.hyps = [h._replace(stale=True) if h.inbuf else h for h in f.hyps]
        self.after((), "an outside change")

    def finish(self):
        for i in list(self.ctx)[::-1]:
            self.do_exit(i, False)
        cls = self.cls
        cls.set_buffer_capacity(self.cap0)
        if cls.get_current_buffer_size() != 0:
            self.bad(f"buffer size {cls.get_current_buffer_size()} after all contexts were left")
        if cls.backend_is_buffered():
            self.bad("the backend is still buffered after all contexts were left")
        for i, f in enumerate(self.files):
            for k in range(len(f.objs)):
                self.do_read(i, k, 0)

    def close(self):
        for c in list(self.ctx.values())[::-1]:
            try:
                c.__exit__(None, None, None)
            except Exception:
                pass
        try:
            self.cls.set_buffer_capacity(self.cap0)
        except Exception:
            pass
        reset_buffer(self.cls)
        for f in self.files:
            f.res.dispose()


def _eq(a, b):
    if a is MISSING or b is MISSING or a is None or b is None:
        return a is b
    return same(a, b)


def _show(x):
    return "<missing>" if x is MISSING else repr(x)


def run_conf(spec, scratch, cfg, mutate, gen=None, steps=None, n_steps=20):
    w = ConfWorld(spec, scratch, mutate=mutate, **cfg)
    done = []
    try:
        for k in range(n_steps if steps is None else len(steps)):
            s = gen(w) if steps is None else steps[k]
            if steps is not None and not w.possible(s):
                continue
            done.append(s)
            w.step(s)
        w.finish()
        return w, done
    except Violation as v:
        v.steps = done
        raise
    except Exception as e:
        import traceback

        v = Violation(f"unexpected {type(e).__name__}: {e}")
        v.detail = traceback.format_exc()
        v.steps = done
        raise v
    finally:
        w.close()
