"""C16: values are copied in and out."""
import collections
import contextlib

from checks.common import *  # noqa: F403
from vlib.bufworld import reset_buffer
from vlib.resources import Resource
from vlib.values import containers, gen_value, is_plain, norm, resolve, same

clone = norm  # unlike deepcopy it does not preserve sharing

RULE = ("distinct (class, context, entry point, site kind, source of the value) stores and (class, context, way out) reads "
        "whose containers were mutated from outside afterwards")

DICT_STORE = ["setitem", "setitem_old", "setdefault", "update_map", "update_kw", "update_pairs", "reset_child", "setattr"]
LIST_STORE = ["append", "insert", "extend", "extend_gen", "iadd", "setitem_i", "slice", "slice_all", "reset_child"]


class Holder:
    """One collection with its model."""

    def __init__(self, w, spec, rng, ctor, retained):
        self.spec = spec
        self.res = Resource(spec, w.scratch, rng.random() < 0.3)
        start = gen_value(rng, 3, False, False, 0.8)
        while not isinstance(start, dict if spec.kind == "dict" else list) or len(start) < 2:
            start = gen_value(rng, 3, False, False, 0.8)
        self.model = clone(start)
        if ctor:
            mine = clone(start)
            self.obj = self.res.make(data=mine)
            retained.append(("ctor", mine))
            retained.extend(("ctor", c) for _, c in containers(mine))
            # constructor data is saved with the first modification
            if spec.kind == "dict":
                self.obj["first"] = 1
                self.model["first"] = 1
            else:
                self.obj.append(1)
                self.model.append(1)
        else:
            self.res.raw_write(start)
            self.obj = self.res.make()


def nav(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def poke(c, n, rng):
    """Mutate a container the user holds."""
    import numpy as np

    if isinstance(c, np.ndarray):
        c[...] = n
    elif isinstance(c, (dict, collections.UserDict)):
        r = rng.random()
        if r < 0.3 and len(c):
            c.clear()
        elif r < 0.5 and len(c):
            del c[next(iter(c))]
        else:
            c["POKED"] = n
    elif isinstance(c, bytearray):
        c.append(1)
    else:
        r = rng.random()
        if r < 0.3 and len(c):
            c.clear()
        elif r < 0.5 and len(c):
            c[0] = "POKED"
        else:
            c.append(n)


def poke_synced(node, n):
    """Mutate a removed synced value; an error is as good as no effect."""
    try:
        if hasattr(node, "items"):
            node["POKED"] = n
            for v in list(node.values()):
                pass
        else:
            node.append(n)
    except Exception:  # noqa: BLE001
        pass
    try:
        kids = [node[k] for k in list(node)] if hasattr(node, "items") else list(node)
        for k in kids:
            if hasattr(k, "_to_base"):
                poke_synced(k, n)
                break
    except Exception:  # noqa: BLE001
        pass


def payload(rng, retained):
    """(value with mutable containers, what it stores); the containers are retained for poking."""
    import numpy as np

    r = rng.random()
    if r < 0.12:
        a = rng.choice([np.arange(3), np.ones((2, 2)), np.array([[1, 2], [3, 4]])])
        retained.append(("numpy", a))
        v = {"np": a} if rng.random() < 0.4 else a
        plain = {"np": a.tolist()} if isinstance(v, dict) else a.tolist()
        if isinstance(v, dict):
            retained.append(("plain", v))
        return v, plain, "numpy"
    v = gen_value(rng, 3, False, False, 0.9)
    if not isinstance(v, (dict, list)):
        v = [v, {"x": v}]
    if r < 0.3:
        shared = rng.choice([[1], {"s": 1}, {"s": [1]}])
        v = {"p": shared, "q": shared, "r": [shared, v]}
    want = clone(v)
    kind = "plain"
    if r > 0.85:
        v, kind = odd(rng, v, retained), "odd"
    else:
        retained.extend(("plain", c) for _, c in containers(v))
    return v, want, kind


def odd(rng, v, retained):
    """The same value with other container types."""
    if isinstance(v, dict):
        d = {k: odd(rng, x, retained) for k, x in v.items()}
        c = rng.choice([dict, collections.OrderedDict, collections.UserDict])(d)
        retained.append(("odd", c))
        return c
    if isinstance(v, list):
        x = [odd(rng, i, retained) for i in v]
        c = rng.choice([list, tuple, collections.UserList])(x)
        if not isinstance(c, tuple):
            retained.append(("odd", c))
        return c
    return v


class Case:
    def __init__(self, w, names, mode, seed, trace=None):
        self.w = w
        self.rng = rng = random.Random(seed)
        self.retained = []  # (how, container) the user still holds
        self.dead = []  # removed synced values
        self.mode = mode
        self.trace = trace if trace is not None else []
        self.holders = []
        for n in names:
            self.holders.append(Holder(w, spec_by_name(n), rng, rng.random() < 0.25, self.retained))
        self.sigs = []

    def run(self, n):
        stack = contextlib.ExitStack()
        try:
            with stack:
                if self.mode == "cls":
                    for c in {h.spec.cls for h in self.holders if h.spec.buffered}:
                        stack.enter_context(c.buffer_backend())
                elif self.mode == "obj":
                    for h in self.holders:
                        if h.spec.buffered:
                            stack.enter_context(h.obj.buffered)
                for i in range(n):
                    self.step(i)
                    self.check()
            self.check(final=True)
        finally:
            for h in self.holders:
                if h.spec.buffered:
                    reset_buffer(h.spec.cls)
                h.res.dispose()

    def check(self, final=False):
        for i, h in enumerate(self.holders):
            if final or not (self.mode and h.spec.buffered):
                raw = h.res.raw_read()
                if not same(norm(raw), h.model):
                    raise Violation(f"{h.spec.name}: collection {i} is stored as {raw!r:.400}, expected {h.model!r:.400}")
            got = h.obj()
            if not same(got, h.model):
                raise Violation(f"{h.spec.name}: collection {i} shows {got!r:.400}, expected {h.model!r:.400}")
            if not is_plain(got):
                raise Violation(f"{h.spec.name}: () returned something that is not plain: {got!r:.400}")

    def site(self, kind=None):
        rng = self.rng
        h = rng.choice(self.holders)
        sites = [(p, c) for p, c in containers(h.model) if kind is None or isinstance(c, kind)]
        if not sites:
            return None, None, None
        p, c = rng.choice(sites)
        return h, p, c

    def log(self, *what):
        self.trace.append(repr(what)[:300])

    def sig(self, h, *what):
        self.sigs.append((h.spec.name, self.mode) + what)

    def step(self, i):
        r = self.rng.random()
        if sum(len(repr(h.model)) for h in self.holders) > 6000:
            h = max(self.holders, key=lambda h: len(repr(h.model)))
            new = {"a": {"b": [1]}, "c": [2]} if h.spec.kind == "dict" else [{"b": [1]}, [2]]
            h.obj.reset(clone(new))
            h.model = new
            return
        if r < 0.35:
            self.store()
        elif r < 0.55:
            self.store_synced()
        elif r < 0.72:
            self.way_out()
        elif r < 0.82:
            self.remove()
        elif r < 0.9:
            self.write()
        self.pokes(i)

    def pokes(self, i):
        for _ in range(self.rng.randrange(3)):
            if self.retained:
                how, c = self.rng.choice(self.retained)
                self.log("poke", how)
                poke(c, i, self.rng)
        if self.dead and self.rng.random() < 0.4:
            self.log("poke removed")
            poke_synced(self.rng.choice(self.dead), i)
        del self.retained[:-25]
        del self.dead[:-6]

    def write(self):
        """An ordinary write through a fresh handle."""
        h, p, c = self.site()
        node = nav(h.obj, p)
        u = self.rng.randrange(10**6)
        self.log("write", h.spec.name, p)
        if isinstance(c, dict):
            node["w"] = u
            c["w"] = u
        else:
            node.append(u)
            c.append(u)

    def put(self, h, p, c, v, want, how):
        """Store v (whose plain value is want) at the site through some entry point."""
        rng = self.rng
        node = nav(h.obj, p)
        two = rng.random() < 0.3
        if isinstance(c, dict):
            op = rng.choice(DICT_STORE)
            old = rng.choice(list(c)) if c else "new"
            if op == "setattr" and not h.spec.attr:
                op = "setitem"
            self.log("store", op, h.spec.name, p, how, want)
            if op == "setitem":
                node["new"] = v
                c["new"] = clone(want)
            elif op == "setitem_old":
                node[old] = v
                c[old] = clone(want)
            elif op == "setattr":
                node.new = v
                c["new"] = clone(want)
            elif op == "setdefault":
                node.setdefault("new", v)
                c.setdefault("new", clone(want))
            elif op == "update_map":
                arg = {"new": v, "two": v} if two else {"new": v}
                node.update(arg)
                self.retained.append(("arg", arg))
                c.update({k: clone(want) for k in arg})
            elif op == "update_kw":
                node.update(new=v)
                c.update(new=clone(want))
            elif op == "update_pairs":
                pair = ["new", v]
                node.update([pair, ("two", v)])
                self.retained.append(("arg", pair))
                c.update(new=clone(want), two=clone(want))
            else:
                arg = {"new": v, "two": v} if two else {"new": v}
                node.reset(arg)
                self.retained.append(("arg", arg))
                c.clear()
                c.update({k: clone(want) for k in arg})
        else:
            op = rng.choice(LIST_STORE)
            self.log("store", op, h.spec.name, p, how, want)
            arg = [v, v] if two else [v]
            warg = [clone(want) for _ in arg]
            i = rng.randrange(len(c)) if c else 0
            if op == "append" or (op == "setitem_i" and not c):
                node.append(v)
                c.append(clone(want))
            elif op == "insert":
                node.insert(i, v)
                c.insert(i, clone(want))
            elif op == "extend":
                node.extend(arg)
                c.extend(warg)
            elif op == "extend_gen":
                node.extend(x for x in arg)
                c.extend(warg)
            elif op == "iadd":
                node += arg
                c += warg
            elif op == "setitem_i":
                node[i] = v
                c[i] = clone(want)
            elif op == "slice":
                node[i:i + 1] = arg
                c[i:i + 1] = warg
            elif op == "slice_all":
                node[:] = arg
                c[:] = warg
            else:
                node.reset(arg)
                c[:] = warg
            self.retained.append(("arg", arg))
        self.sig(h, op, "root" if not p else type(c).__name__, how)

    def store(self):
        h, p, c = self.site()
        v, want, kind = payload(self.rng, self.retained)
        self.put(h, p, c, v, want, kind)

    def store_synced(self):
        """Store a synced collection (root or child), possibly wrapped, possibly into itself."""
        rng = self.rng
        src, sp, sc = self.site()
        node = nav(src.obj, sp)
        want = clone(sc)
        how = ("synced", "root" if not sp else "child", type(sc).__name__)
        r = rng.random()
        h, p, c = self.site()
        if r < 0.3:
            h, p, c = src, sp[: rng.randrange(len(sp) + 1)], None
            c = resolve(h.model, p)
            how += ("ancestor",)
        how += ("same" if h is src else h.spec.backend + src.spec.backend,)
        if r > 0.8:
            whole = rng.choice(["update", "extend", "iadd", "slice", "reset", "slice_mid"])
            if isinstance(c, dict) == isinstance(sc, dict):
                dst = nav(h.obj, p)
                self.log("whole", whole, h.spec.name, p, src.spec.name, sp)
                if isinstance(c, dict):
                    if whole in ("update", "extend"):
                        dst.update(node)
                        c.update(want)
                    elif whole == "iadd":
                        dst.update(node.items())
                        c.update(want)
                    else:
                        dst.reset(node)
                        c.clear()
                        c.update(want)
                elif whole in ("update", "extend"):
                    dst.extend(node)
                    c.extend(want)
                elif whole == "iadd":
                    dst += node
                    c += want
                elif whole == "slice":
                    dst[:] = node
                    c[:] = want
                elif whole == "slice_mid":
                    dst[1:1] = node
                    c[1:1] = want
                else:
                    dst.reset(node)
                    c[:] = want
                self.sig(h, "whole-" + whole, how)
                return
        if rng.random() < 0.25:
            v = rng.choice([lambda: {"w": node}, lambda: [node, node], lambda: {"w": [node]}, lambda: (node,)])()
            wrap = {"w": want} if isinstance(v, dict) and not isinstance(v["w"], list) else None
            if wrap is None:
                wrap = {"w": [want]} if isinstance(v, dict) else [clone(want) for _ in v]
            self.put(h, p, c, v, wrap, how + ("wrapped",))
        else:
            self.put(h, p, c, node, want, how)

    def way_out(self):
        """Take data out and mutate it."""
        rng = self.rng
        h, p, c = self.site()
        node = nav(h.obj, p)
        if isinstance(c, dict):
            how = rng.choice(["call", "values", "items", "values", "items"])
        else:
            how = "call"
        self.log("out", how, h.spec.name, p)
        if how == "call":
            out = node()
            want = clone(c)
            bad = not same(out, want)
        elif how == "values":
            out = list(node.values())
            want = list(c.values())
            bad = not all(any(same(x, y) for y in want) for x in out) or len(out) != len(want)
        else:
            out = [list(x) for x in node.items()]
            want = c
            bad = len(out) != len(c) or not all(k in c and same(v, c[k]) for k, v in out)
        if bad or not is_plain(out):
            raise Violation(f"{h.spec.name}: {how} of {list(p)} returned {out!r:.300}, expected plain {want!r:.300}")
        for _, x in list(containers(out)):
            self.retained.append((how, x))
            if rng.random() < 0.5:
                poke(x, 5, rng)
        self.sig(h, "out-" + how, type(c).__name__)

    def remove(self):
        rng = self.rng
        h, p, c = self.site()
        if not c:
            return
        node = nav(h.obj, p)
        if isinstance(c, dict):
            k = rng.choice(list(c))
            how = rng.choice(["pop", "popitem", "del", "delattr"])
            if how == "delattr" and (not h.spec.attr or not k.isidentifier() or k.startswith("_") or k in dir(type(node))):
                how = "del"
            self.log("remove", how, h.spec.name, p, k)
            if how == "pop":
                got = node.pop(k)
                c.pop(k)
            elif how == "popitem":
                k, got = node.popitem()
                c.pop(k)
            else:
                got = node[k]
                inner = [got[x] for x in list(got)] if hasattr(got, "items") else []
                self.dead += [x for x in inner if hasattr(x, "_to_base")]
                if how == "del":
                    del node[k]
                else:
                    delattr(node, k)
                del c[k]
        else:
            i = rng.randrange(len(c))
            how = rng.choice(["pop", "del", "delslice", "poplast"])
            self.log("remove", how, h.spec.name, p, i)
            if how == "pop":
                got = node.pop(i)
                c.pop(i)
            elif how == "poplast":
                got = node.pop()
                c.pop()
            elif how == "del":
                got = node[i]
                del node[i]
                del c[i]
            else:
                got = node[i]
                del node[i:i + 1]
                del c[i:i + 1]
        if isinstance(got, (dict, list)):
            self.retained.extend(("removed", x) for _, x in containers(got))
        elif hasattr(got, "_to_base"):
            self.dead.append(got)
        self.sig(h, "remove-" + how, type(got).__name__)


def case(w, names, mode, seed, n, threading, trace=None):
    for name in names:
        set_threading(spec_by_name(name), threading)
    try:
        c = Case(w, names, mode, seed, trace)
        c.run(n)
        return c
    finally:
        set_threading(spec_by_name("JSONDict"), True)


def share(w, item):
    name, block, n = item
    all_names = [s.name for s in all_specs()]
    spec = spec_by_name(name)
    for k in range(n):
        rng = w.rng(name, block, k)
        names = [name]
        # attribute families reject dotted keys, which are never used here
        while len(names) < rng.choice([1, 2, 3]):
            names.append(rng.choice([name, rng.choice(all_names)]))
        mode = rng.choice([None, "obj", "cls"]) if spec.buffered else None
        seed = rng.randrange(2**40)
        steps = rng.choice([10, 20])
        thr = rng.random() < 0.8
        data = {"names": names, "mode": mode, "seed": seed, "n": steps, "threading": thr}
        trace = []
        try:
            c = case(w, names, mode, seed, steps, thr, trace)
        except Violation as v:
            w.report(f"{v.what} [context {mode}, last steps {trace[-3:]}]", "\n".join(trace), data)
            return
        except Exception as e:
            w.report(f"unexpected {type(e).__name__}: {e} [context {mode}, last steps {trace[-3:]}]", traceback.format_exc(),
                     data)
            return
        w.count("histories")
        w.count("evaluations", len(trace))
        for s in c.sigs:
            w.sig(*s)
        if len(w.samples) < 2:
            w.sample({"classes": names, "context": mode, "steps": trace[:6]})


def main():
    import_library()
    run = Run("C16")
    need_redis(run)
    f = 12 if run.tier == "thorough" else 3
    shares = [(s.name, b, 25) for b in range(6 * f) for s in all_specs()]
    run_workers(run, share, shares)
    return run.finish(RULE, minimum=10000, assumptions=[
        "mutating a removed synced value may raise; it must not change any collection"])


def replay(data):
    import_library()
    run = Run("C16")
    need_redis(run)
    w = Worker(run, 0, run.scratch)
    trace = []
    try:
        case(w, data["names"], data["mode"], data["seed"], data["n"], data["threading"], trace)
    except Violation as v:
        print("\n".join(trace))
        print("reproduced:", v.what)
        print("VIOLATION property=C16 replay=-")
        return 1
    print("not reproduced")
    return 0
