"""Sequential histories over one resource: objects, retained children, contexts, outside writes.

A history is a list of literal steps, so that it can be replayed and shrunk:

  ("op", obj, via, path, name, args)   via: "nav" | "handle"
  ("grab", obj, path)                  navigate to a container and retain the child
  ("raw", new content)                 rewrite the resource behind the library's back
  ("enter", what) / ("exit",)          buffered contexts (what: object index or "cls")
  ("new",)                             one more collection object on the resource
  ("drop", obj, keep)                  forget a collection object (but keep its children) and make a new one
"""
import gc

from .base import Inconclusive, Violation
from .ops import (
    BULK, OPS, ORDERED, OpGen, compare, dec, fmt, plain, run_model, run_op, unwrap,
)
from .resources import N_STYLES, Resource, all_specs
from .values import (
    MISSING, clone, containers, gen_root, gen_value, kinds_along, resolve, same, shape_key, size,
)

LIST_SHIFT = {"l.delitem", "l.insert", "l.remove", "l.pop", "l.pop1", "l.reverse", "l.clear",
              "l.reset"}


class World:
    """Executes steps on real collections and on the shared plain model."""

    frozen = False

    def __init__(self, spec, scratch, start, n_objects=1, write_concern=False, ctor_data=False,
                 monitors=(), mixed=False):
        self.spec = spec
        self.classes = [spec.cls]
        if mixed and spec.backend == "json":
            self.classes = [s.cls for s in all_specs(redis=False, mongo=False, zarr=False)
                            if s.kind == spec.kind and s.attr == spec.attr]
        self.res = Resource(spec, scratch, write_concern)
        self.monitors = set(monitors)
        self.model = clone(start) if start is not MISSING else ({} if spec.kind == "dict" else [])
        kw = {}
        self.exists = False
        if start is not MISSING:
            if ctor_data:
                kw["data"] = clone(start)
            else:
                self.res.raw_write(start)
                self.exists = True
        self.objs = []
        self.handles = []  # per object: {path: (child, kinds along the path)}
        # The default Zarr codec sorts the keys of what it stores.
        self.unordered = spec.backend == "zarr"
        self.stack = []
        self.saved = False
        self.kw = kw
        for _ in range(n_objects):
            self.new_object()
        self.disk = None  # what the file must hold while buffered
        self.events = 0
        self.past = []  # earlier contents

    def new_object(self):
        cls = self.classes[len(self.objs) % len(self.classes)]
        self.objs.append(self.res.make(cls, **clone(self.kw)))
        self.handles.append({})
        if len(self.objs) > 1:
            # merging what others wrote keeps the order of the keys already known
            self.unordered = True

    def droppable(self):
        # data given to a constructor may exist in that object only
        return not self.stack and not self.kw

    def drop(self, obj, keep):
        cls = type(self.objs[obj])
        self.objs[obj] = None
        if not keep:
            self.handles[obj] = {}
        if not World.frozen:
            # what exists now is not worth being looked at again and again
            World.frozen = True
            gc.freeze()
        gc.collect()
        self.objs[obj] = self.res.make(cls)
        self.unordered = True

    # -- navigation -------------------------------------------------------
    def node(self, obj, via, path):
        path = tuple(path)
        if via == "handle":
            return self.handles[obj][path][0]
        node = self.objs[obj]
        for p in path:
            node = node[p]
        return node

    def grab(self, obj, path):
        path = tuple(path)
        n = self.node(obj, "nav", path)
        from synced_collections import SyncedCollection

        if not isinstance(n, SyncedCollection):
            raise Violation(f"container at {path} is handed out as {type(n).__name__}")
        self.handles[obj][path] = (n, kinds_along(self.model, path))

    def _drop(self, obj, name, args, path):
        """Forget children whose position was (possibly) reassigned through the same object."""
        path = tuple(path)
        k = len(path)
        keys = None
        short = name[2:]
        if short in ("setitem", "setattr", "delitem", "delattr", "pop", "pop2", "iadditem") and name[0] == "d":
            keys = {args[0]} if isinstance(args[0], str) else set()
        elif short in ("setdefault", "setdefault1"):
            keys = set()  # an existing entry is not touched, a new one has no child yet
        elif short in ("setitem", "iadditem") and not isinstance(dec(args[0]), slice):
            keys = {args[0] % len(self._before)} if isinstance(args[0], int) and self._before else set()
        elif short in ("append", "extend", "iadd", "extend_iter"):
            keys = set()
        elif short in ("update", "update_kw", "update_both", "update_iter", "update0"):
            keys = set()
            for a in map(unwrap, args):
                if isinstance(a, dict):
                    keys |= set(a)
                elif isinstance(a, (list, tuple)):
                    keys |= {p[0] for p in a if isinstance(p, (list, tuple)) and len(p) == 2}
        for h in list(self.handles[obj]):
            if h[:k] == path and len(h) > k and (keys is None or h[k] in keys):
                del self.handles[obj][h]

    def _prune(self):
        for hs in self.handles:
            for h in list(hs):
                if kinds_along(self.model, h) != hs[h][1]:
                    del hs[h]

    # -- steps ------------------------------------------------------------
    def step(self, step):
        kind = step[0]
        if kind == "op":
            self.op(*step[1:])
        elif kind == "grab":
            path = tuple(step[2])
            if kinds_along(self.model, path) is not None and path:
                self.grab(step[1], path)
        elif kind == "raw":
            self.res.raw_write(step[1], *step[2:])
            self.model = clone(step[1])
            self.exists = True
            self.unordered = True
            self._prune()
        elif kind == "new":
            self.new_object()
        elif kind == "drop":
            if self.droppable():
                self.drop(step[1], step[2])
        elif kind == "enter":
            self.enter(step[1])
        elif kind == "exit":
            self.exit()
        self.events += 1
        if not self.past or self.past[-1] != self.model:
            self.past.append(clone(self.model))
            del self.past[:-8]

    def possible(self, step):
        if step[0] == "op":
            _, obj, via, path, name, args = step
            if via == "handle":
                if tuple(path) not in self.handles[obj]:
                    return False
            ks = kinds_along(self.model, path)
            return ks is not None and ks[-1] == OPS[name][0]
        if step[0] == "exit":
            return bool(self.stack)
        return True

    def op(self, obj, via, path, name, args):
        mutates = OPS[name][1]
        path = tuple(path)
        node = self.node(obj, via, path)
        target = resolve(self.model, path)
        before = clone(self.model)
        self._before = clone(target)
        if not self.exists:
            self.exists = self.res.raw_read() is not MISSING
        got = run_op(node, name, args)
        if name == "d.popitem" and got[0] == "ok" and self.unordered:
            # Which key is removed is unspecified after bulk updates: follow the real choice.
            r = got[1]
            if not (isinstance(r, tuple) and len(r) == 2 and r[0] in target):
                raise Violation(f"popitem returned {r!r}, not an item of {target!r}")
            want = ("ok", (r[0], target.pop(r[0])))
        else:
            want = run_model(target, name, args)
        if name in BULK:
            self.unordered = True
        if mutates:
            self._drop(obj, name, args, path)
        self._prune()
        if "results" in self.monitors or ("reads" in self.monitors and not mutates):
            bad = compare(name, got, want, ordered=not self.unordered)
            if bad:
                raise Violation(bad)
        elif got[0] != want[0]:
            # the run cannot continue: model and object went different ways
            raise Diverged(f"{name}: {fmt(got)} vs {fmt(want)}")
        failed = want[0] == "err"
        if mutates and not failed:
            self.saved = True
        if "backend" in self.monitors and mutates and not self.stack:
            self.check_backend(name, failed)
        if "unchanged_on_error" in self.monitors and failed and not self.stack:
            self.check_backend(name, failed)
            if not same(self.objs[obj](), self.model):
                raise Violation(f"{name} raised and changed the content to {self.objs[obj]()!r}")
        if "handles" in self.monitors and mutates and not failed:
            for i, hs in enumerate(self.handles):
                for h, (child, _) in list(hs.items()):
                    if not same(child(), resolve(self.model, h)):
                        raise Violation(f"after {name} at {path} through object {obj}: child at {h} of "
                                        f"object {i} shows {child()!r}, expected {resolve(self.model, h)!r}")
        if "content" in self.monitors and mutates:
            c = self.objs[obj]()
            if not same(c, self.model):
                raise Violation(f"after {name}{args!r} at {path}: content {c!r}, expected {self.model!r}",
                                f"before: {before!r}")
        if "deferred" in self.monitors and self.stack:
            self.check_deferred(name)

    def check_backend(self, name, failed=False):
        raw = self.res.raw_read()
        if raw is MISSING:
            # A resource that never existed and an empty one are the same content.
            if self.exists or (not failed and self.model):
                raise Violation(f"after {name} the resource does not exist")
            return
        if failed and not self.exists:
            raise Violation(f"{name} raised but created the resource with {raw!r}")
        if not same(raw, self.model):
            raise Violation(f"after {name} the resource holds {raw!r}, expected {self.model!r}")
        self.exists = True

    # -- contexts ---------------------------------------------------------
    def enter(self, what):
        ctx = self.spec.cls.buffer_backend() if what == "cls" else self.objs[what].buffered
        if not self.stack:
            self.disk = self.res.fingerprint()
            self.disk_missing = self.res.raw_read() is MISSING
            self.saved = False
        ctx.__enter__()
        self.stack.append((what, ctx))

    def exit(self):
        what, ctx = self.stack.pop()
        ctx.__exit__(None, None, None)
        if "deferred" in self.monitors:
            if self.stack:
                self.check_deferred(f"leaving an inner context ({what})")
            else:
                raw = self.res.raw_read()
                if raw is MISSING and self.disk_missing and not self.model and not self.saved:
                    return
                if not same(raw, self.model):
                    raise Violation(f"at the outermost exit the file holds {raw!r}, expected {self.model!r}")
                self.exists = raw is not MISSING

    def check_deferred(self, name):
        if self.res.fingerprint() != self.disk:
            raise Violation(f"the file was written while buffered (after {name})")

    def close(self):
        """Leave all contexts (used on the way out)."""
        while self.stack:
            what, ctx = self.stack.pop()
            try:
                ctx.__exit__(None, None, None)
            except Exception:
                pass
        try:
            self.res.dispose()
        except OSError:
            pass


def tweak(rng, v):
    """Change one scalar so that the encoded text keeps its length."""
    spots = []
    for _, c in containers(v):
        for k in c if isinstance(c, dict) else range(len(c)):
            x = c[k]
            if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 10:
                spots.append((c, k, (x + 1) % 10))
            elif isinstance(x, str) and x.isascii() and x.isalnum() and len(x) == 1:
                spots.append((c, k, "z" if x != "z" else "y"))
            elif x is True:
                spots.append((c, k, None))
            elif x is None:
                spots.append((c, k, True))
    if not spots:
        return False
    c, k, x = rng.choice(spots)
    c[k] = x
    return True


class Diverged(Exception):
    """Model and object disagree on something this property does not speak about."""


class StepGen:
    """Generates steps for a world (driven by its model)."""

    def __init__(self, rng, spec, p_read=0.25, p_grab=0.15, p_raw=0.0, p_handle=0.4, depth=2,
                 weird=0.04, mutators=None, reads=None, p_ctx=0.0, max_ctx=4, tuples=True,
                 p_cls=0.4, p_new=0.0, p_past=0.08, p_drop=0.0):
        self.rng = rng
        self.spec = spec
        self.ops = OpGen(rng, spec, depth, weird, mutators, reads, tuples)
        self.p_read, self.p_grab, self.p_raw, self.p_handle = p_read, p_grab, p_raw, p_handle
        self.depth = depth
        self.p_ctx = p_ctx
        self.max_ctx = max_ctx
        self.p_cls = p_cls
        self.p_new = p_new
        self.p_past = p_past
        self.p_drop = p_drop

    def next(self, w):
        r = self.rng
        obj = r.randrange(len(w.objs))
        x = r.random()
        if self.p_ctx and x < self.p_ctx:
            if w.stack and (len(w.stack) >= self.max_ctx or r.random() < 0.5):
                return ("exit",)
            return ("enter", "cls" if r.random() < self.p_cls else obj)
        if self.p_new and len(w.objs) < 6 and r.random() < self.p_new:
            return ("new",)
        if self.p_drop and r.random() < self.p_drop:
            return ("drop", obj, r.random() < 0.5)
        x = r.random()
        if x < self.p_raw:
            if w.past and r.random() < 0.15:
                new = clone(r.choice(w.past))
            else:
                new = self.mutated(w.model)
            return ("raw", new, r.randrange(N_STYLES))
        conts = [p for p, c in containers(w.model)]
        if x < self.p_raw + self.p_grab:
            inner = [p for p in conts if p]
            if inner:
                return ("grab", obj, r.choice(inner))
        mutate = r.random() >= self.p_read
        hs = list(w.handles[obj])
        if hs and r.random() < self.p_handle:
            via, path = "handle", r.choice(hs)
        else:
            via = "nav"
            path = () if r.random() < 0.35 else r.choice(conts)
            if len(path) > 5:
                path = ()
        m = resolve(w.model, path)
        if mutate and w.past and r.random() < self.p_past:
            back = self.revert(w, m, path)
            if back is not None:
                return ("op", obj, via, path) + back
        if mutate and size(w.model) > 70:
            path = ()
            m = w.model
            via = "nav"
            name = "d.clear" if isinstance(m, dict) else "l.clear"
            if name in self.ops.names[self.spec.kind, True]:
                return ("op", obj, via, path, name, ())
        g = self.ops.gen(m, mutate)
        if g is None:
            return ("grab", obj, path)
        return ("op", obj, via, path, g[0], g[1])

    def revert(self, w, m, path):
        """An operation that brings a part of the data back to what it was before."""
        r = self.rng
        past = r.choice(w.past)
        if kinds_along(past, path) != kinds_along(w.model, path):
            return None
        old = resolve(past, path)
        names = self.ops.names["dict" if isinstance(m, dict) else "list", True]
        if isinstance(m, dict):
            diff = [k for k in old if k not in m or not same(old[k], m[k])]
            gone = [k for k in m if k not in old]
            if gone and (not diff or r.random() < 0.5):
                name, args = "d.delitem", (r.choice(gone),)
            elif diff:
                k = r.choice(diff)
                name, args = "d.setitem", (k, clone(old[k]))
            else:
                return None
            if r.random() < 0.2:
                name, args = "d.reset", (clone(old),)
        else:
            diff = [i for i in range(min(len(m), len(old))) if not same(old[i], m[i])]
            if diff and r.random() < 0.6:
                i = r.choice(diff)
                name, args = "l.setitem", (i, clone(old[i]))
            else:
                name, args = "l.reset", (clone(old),)
        return (name, args) if name in names else None

    def mutated(self, model):
        """A content derived from model by changing some positions to arbitrary values."""
        r = self.rng
        new = clone(model)
        if r.random() < 0.15 and tweak(r, new):
            return new
        if r.random() < 0.1:
            return gen_root(r, self.spec.kind, self.depth, self.spec.dots, self.spec.big)
        for _ in range(r.choice([1, 1, 2, 3])):
            path, c = r.choice(list(containers(new)))
            v = gen_value(r, self.depth, self.spec.dots, self.spec.big)
            if isinstance(c, dict):
                if c and r.random() < 0.2:
                    del c[r.choice(list(c))]
                else:
                    k = r.choice(list(c)) if c and r.random() < 0.75 else self.ops.key({})
                    c[k] = v
            else:
                if c and r.random() < 0.2:
                    del c[r.randrange(len(c))]
                elif c and r.random() < 0.7:
                    c[r.randrange(len(c))] = v
                else:
                    c.insert(r.randrange(len(c) + 1), v)
        return new


def run_history(worker, spec, scratch, cfg, gen=None, steps=None, n_steps=30, hook=None):
    """Run one history (generated or given). Returns (world facts, executed steps).

    Raises Violation with .steps attached.
    """
    w = World(spec, scratch, **cfg)
    done = []
    try:
        if steps is None:
            for _ in range(n_steps):
                try:
                    st = gen.next(w)
                except Exception as e:
                    raise Inconclusive(f"generator: {e!r}") from e
                done.append(st)
                w.step(st)
                if hook:
                    hook(w, st)
        else:
            for st in steps:
                if not w.possible(st):
                    continue
                done.append(st)
                w.step(st)
                if hook:
                    hook(w, st)
        while w.stack:
            done.append(("exit",))
            w.step(("exit",))
            if hook:
                hook(w, ("exit",))
        return w, done
    except Violation as v:
        v.steps = done
        raise
    except Diverged:
        return w, done
    except Inconclusive:
        raise
    except Exception as e:
        v = Violation(f"unexpected {type(e).__name__}: {e}")
        import traceback

        v.detail = traceback.format_exc()
        v.steps = done
        raise v
    finally:
        w.close()


def signature(w, done):
    """What the history exercised: used to count distinct non-trivial cases."""
    return tuple(
        (s[4], len(s[3]), s[2]) if s[0] == "op" else s[0] for s in done
    ), shape_key(w.model)


__all__ = [n for n in dir() if not n.startswith("_")] + ["ORDERED", "plain"]
