"""C18: nested containers keep the root's family; attribute access equals item access."""
import contextlib
import os

from checks.common import *  # noqa: F403
from vlib.bufworld import reset_buffer
from vlib.resources import Resource
from vlib.values import clone, containers, gen_value, resolve, same

RULE = ("distinct (class, threading mode, operations with depth, final shape) histories whose whole container tree was "
        "walked after every step, and distinct (class, depth, context, key, accesses) attribute histories")


# -- family ------------------------------------------------------------------
def family(spec):
    """(class of nested dicts, class of nested lists)"""
    n = spec.name[:-4]
    return spec_by_name(n + "Dict").cls, spec_by_name(n + "List").cls


def reach(rng, node, k, m):
    """Get the child at k in some way; returns (child, way)."""
    ways = ["item"]
    if isinstance(m, dict):
        ways += ["get", "setdefault"]
        if hasattr(type(node), "__getattr__") and k.isidentifier() and not hasattr(type(node), k) and k not in vars(node):
            ways.append("attr")
    else:
        ways += ["iter", "slice", "reversed", "negative"]
    way = rng.choice(ways)
    if way == "item":
        return node[k], way
    if way == "get":
        return node.get(k), way
    if way == "setdefault":
        return node.setdefault(k, 5), way
    if way == "attr":
        return getattr(node, k), way
    if way == "iter":
        return list(node)[k], way
    if way == "slice":
        return node[k:k + 1][0], way
    if way == "reversed":
        return list(reversed(node))[len(m) - 1 - k], way
    return node[k - len(m)], way


def walk(rng, node, m, fam, path=()):
    want = fam[0] if isinstance(m, dict) else fam[1]
    if type(node) is not want:
        raise Violation(f"the container at {list(path)} is a {type(node).__module__}.{type(node).__name__}, "
                        f"expected {want.__name__}")
    for k in m if isinstance(m, dict) else range(len(m)):
        if isinstance(m[k], (dict, list)):
            child, way = reach(rng, node, k, m)
            try:
                walk(rng, child, m[k], fam, path + (k,))
            except Violation as v:
                if len(v.args) == 1:
                    v.what += f" (reached by {way})" if "reached" not in v.what else ""
                raise


def make_hook(others, p_foreign, p_write):
    """Walk the tree after every step, sometimes store a foreign collection, sometimes write at depth."""

    def hook(w, st):
        rng = random.Random(repr(st) + str(w.events))
        if st[0] not in ("op", "raw", "enter", "exit", "new"):
            return
        fam = family(w.spec)
        for o in w.objs:
            walk(rng, o, w.model, fam)
        if rng.random() < p_foreign:
            src = rng.choice(others)
            p, c = rng.choice(list(containers(w.model)))
            node = w.node(rng.randrange(len(w.objs)), "nav", p)
            val = src()
            if isinstance(c, dict):
                if rng.random() < 0.5:
                    node["foreign"] = src
                else:
                    node.update({"foreign": {"x": [src]}})
                    val = {"x": [val]}
                c["foreign"] = val
            else:
                if rng.random() < 0.5:
                    node.append(src)
                    c.append(val)
                else:
                    node.extend([[src], src])
                    c.extend([[clone(val)], val])
            w.handles = [{} for _ in w.objs]
            w.unordered = True
            for o in w.objs:
                walk(rng, o, w.model, fam)
        if rng.random() < p_write:
            deep = [(p, c) for p, c in containers(w.model) if p]
            if deep:
                p, c = rng.choice(deep)
                node = w.objs[rng.randrange(len(w.objs))]
                m = w.model
                for k in p:
                    node, way = reach(rng, node, k, m)
                    m = m[k]
                u = rng.randrange(10**6)
                if isinstance(c, dict):
                    node["deep"] = u
                    c["deep"] = u
                else:
                    node.append(u)
                    c.append(u)
                w._prune()
                if not w.stack:
                    raw = w.res.raw_read()
                    if not same(raw, w.model):
                        raise Violation(f"a write to the container at {list(p)} (reached by {way}) left {raw!r:.300} in the "
                                        f"resource, expected {w.model!r:.300}")
                    w.exists = True
                for o in w.objs:
                    if not same(o(), w.model):
                        raise Violation(f"after a write at {list(p)} the collection shows {o()!r:.300}, expected "
                                        f"{w.model!r:.300}")

    return hook


def foreign(w):
    """Collections of other families used as sources."""
    out, ress = [], []
    for name in ("JSONDict", "JSONAttrList", "BufferedJSONList", "MemoryBufferedJSONAttrDict", "MongoDBDict", "ZarrList"):
        res = Resource(spec_by_name(name), w.scratch)
        data = {"p": {"q": [1, {"r": []}]}} if name.endswith("Dict") else [{"q": [1, {"r": {}}]}, [2]]
        res.raw_write(data)
        root = res.make()
        out += [root, root["p"] if name.endswith("Dict") else root[0]]
        ress.append(res)
    return out, ress


def family_share(w, item):
    _, name, block, n = item
    spec = spec_by_name(name)
    others, ress = foreign(w)
    try:
        for k in range(n):
            rng = w.rng(name, block, k)
            start, ctor = start_state(rng, spec, 3)
            hook = make_hook(others, 0.12, 0.4)
            cfg = dict(start=start, ctor_data=ctor, monitors=("content", "backend"), n_objects=1 if spec.buffered or ctor else
                       rng.choice([1, 2]), write_concern=rng.random() < 0.3)
            history_case(w, spec, cfg,
                         dict(p_read=0.1, p_grab=0.1, p_raw=0.0 if spec.buffered and rng.random() < 0.5 else 0.15,
                              p_handle=0.4, weird=0.03, p_ctx=0.0) |
                         (dict(p_ctx=0.15, p_raw=0.0) if spec.buffered and rng.random() < 0.6 else {}),
                         25, rng, rng.random() < 0.75, hook=hook, tag=("family",))
            if w.violations:
                return
    finally:
        for r in ress:
            r.dispose()


# -- attributes ---------------------------------------------------------------
ORDINARY = ["a", "foo", "_x", "_private", "é", "key with space", "1", "class", "None", "Data", "data", "root", "parent",
            "load", "save", "size", "lock", "threading", "buffer", "k" * 50, "_Data", "mro", "name", "index", "append",
            "count", "sort", "type", "path", "file", "_cache", "_foo_", "x1", "a-b", "ключ", "_", "write_concern", "validators",
            "_filename_", "lambda", "buffers", "hash", "metadata", "contents", "_write", "value", "self", "other", "key"]
PROTECTED = ["_data", "_root", "_load", "_load_and_save", "_suspend_sync", "_validators", "_all_validators", "registry",
             "_supports_threading", "_LoadSaveType", "_filename", "filename", "_write_concern", "_is_buffered", "buffered",
             "_buffer_lock", "_buffer_context", "_buffered_collections"]
DUNDERS = ["__class__", "__len__", "__iter__", "__dict__", "__deepcopy__", "__getstate__", "__foo__", "__eq__", "__call__",
           "__getitem__", "__enter__", "__hash__", "__array__", "__array_interface__", "__json__", "__reduce_ex__"]
METHODS = ["keys", "values", "items", "get", "pop", "popitem", "update", "setdefault", "clear", "reset", "_from_base",
           "_to_base", "_update", "_validate", "backend_is_buffered", "is_base_type", "enable_multithreading", "_save_to_resource",
           "_parent", "_save", "_lock_id", "_thread_lock", "_load_from_resource", "_load_from_buffer", "_flush", "_initialize_data_in_buffer", "_backend", "_locks", "_cls_lock"]
BAD = [{1: 2}, {"a.b": 1}, {1, 2}, [object], {"x": [{None: 1}]}, 1j]


class AttrCase:
    def __init__(self, w, d):
        self.w, self.d = w, d
        self.spec = spec_by_name(d["class"])
        self.rng = random.Random(d["seed"])
        self.log = []

    def run(self):
        set_threading(self.spec, self.d["threading"])
        self.res = Resource(self.spec, self.w.scratch, self.rng.random() < 0.3)
        root_list = self.spec.kind == "list"
        try:
            m = {"n": {"x": {"y": 1}, "l": [{"z": 1}, 2]}, "d": {"e": {"f": {"g": [{"h": 1}]}}}, "s": 5, "name": "v"}
            # content found in the resource may use any key as well
            for k in self.rng.sample(PROTECTED + METHODS + DUNDERS, 6):
                m[k] = clone(self.rng.choice([1, {"a": 1}, [1], None]))
            self.model = [m, {"a": {"b": 1}}] if root_list else m
            self.res.raw_write(self.model)
            self.root = self.res.make()
            ctx = contextlib.nullcontext()
            if self.d["mode"] == "obj":
                ctx = self.root.buffered
            elif self.d["mode"] == "cls":
                ctx = self.spec.cls.buffer_backend()
            with ctx:
                for _ in range(self.d["n"]):
                    self.step()
            raw = self.res.raw_read()
            if not same(raw, self.model):
                raise Violation(f"the file holds {raw!r:.400}, expected {self.model!r:.400}")
        finally:
            set_threading(self.spec, True)
            if self.spec.buffered:
                reset_buffer(self.spec.cls)
            self.res.dispose()

    def pick(self):
        sites = [(p, c) for p, c in containers(self.model) if isinstance(c, dict)]
        p, c = self.rng.choice(sites)
        node = self.root
        for k in p:
            # by attribute where that is possible
            if isinstance(k, str) and self.ordinary(node, k) and self.rng.random() < 0.6:
                node = getattr(node, k)
            else:
                node = node[k]
        return p, c, node

    @staticmethod
    def ordinary(node, k):
        return (hasattr(type(node), "__getattr__") and not hasattr(type(node), k) and k not in vars(node)
                and not k.startswith("__") and k not in PROTECTED and k not in ("_name", "_sync", "_suspend_sync_"))

    def step(self):
        rng = self.rng
        p, c, node = self.pick()
        r = rng.random()
        if r < 0.6:
            pool = list(c) + ORDINARY
            k = rng.choice(pool)
            if not self.ordinary(node, k):
                k = rng.choice(ORDINARY)
                if not self.ordinary(node, k):
                    return
            self.equal(p, c, node, k)
        else:
            k = rng.choice(PROTECTED + METHODS + DUNDERS)
            self.special(p, c, node, k)
        if not same(self.root(), self.model):
            raise Violation(f"{self.log[-1]}: content {self.root()!r:.400}, expected {self.model!r:.400}")
        if not self.d["mode"]:
            raw = self.res.raw_read()
            if not same(raw, self.model):
                raise Violation(f"{self.log[-1]}: the file holds {raw!r:.400}, expected {self.model!r:.400}")

    def equal(self, p, c, node, k):
        """An ordinary key: attribute access behaves like item access."""
        rng = self.rng
        how = rng.choice(["get", "get", "set", "set", "del", "hasattr", "default", "bad", "iadd", "chain", "setnew"])
        self.log.append((how, p, k))
        here = k in c
        if how in ("get", "hasattr", "default"):
            if how == "hasattr":
                if hasattr(node, k) != here:
                    raise Violation(f"hasattr(obj, {k!r}) is {not here}, the key is {'present' if here else 'missing'}")
                return
            if how == "default":
                got = getattr(node, k, "DEFAULT")
                if not here and got != "DEFAULT":
                    raise Violation(f"getattr(obj, {k!r}, default) returned {got!r} for a missing key")
                return
            try:
                got = getattr(node, k)
            except AttributeError:
                if here:
                    raise Violation(f"obj.{k} raised AttributeError for an existing key")
                return
            except Exception as e:
                raise Violation(f"obj.{k} raised {type(e).__name__}: {e}")
            if not here:
                raise Violation(f"obj.{k} returned {got!r} for a missing key")
            item = node[k]
            if type(got) is not type(item):
                raise Violation(f"obj.{k} is a {type(got).__name__}, obj[{k!r}] a {type(item).__name__}")
            plain_got = got() if isinstance(c[k], (dict, list)) else got
            if not same(plain_got, c[k]):
                raise Violation(f"obj.{k} is {plain_got!r:.200}, expected {c[k]!r:.200}")
        elif how in ("set", "setnew"):
            v = gen_value(rng, 2, False, True)
            setattr(node, k, clone(v))
            c[k] = v
        elif how == "del":
            try:
                delattr(node, k)
            except AttributeError:
                if here:
                    raise Violation(f"del obj.{k} raised AttributeError for an existing key")
                return
            except Exception as e:
                raise Violation(f"del obj.{k} raised {type(e).__name__}: {e}")
            if not here:
                raise Violation(f"del obj.{k} of a missing key raised nothing")
            del c[k]
        elif how == "bad":
            v = rng.choice(BAD)
            errs = []
            for f in (lambda: setattr(node, k, v), lambda: node.__setitem__(k, v)):
                try:
                    f()
                    errs.append(None)
                except Exception as e:  # noqa: BLE001
                    errs.append(type(e))
            if errs[0] != errs[1] or errs[0] is None:
                raise Violation(f"obj.{k} = {v!r} raised {errs[0]}, obj[{k!r}] = {v!r} raised {errs[1]}")
        elif how == "iadd":
            if here and isinstance(c[k], list):
                x = getattr(node, k)
                x += [1]
                c[k] += [1]
            elif here and isinstance(c[k], (int, float)) and not isinstance(c[k], bool):
                setattr(node, k, getattr(node, k) + 1)
                c[k] = c[k] + 1
        elif how == "chain":
            u = rng.randrange(10**6)
            setattr(node, k, {"q": {"r": [{"t": 1}]}})
            x = getattr(node, k)
            x.q.w = u
            x.q.r[0].t = [u]
            x.q.r[0].v = {"deep": 1}
            x.q.r[0].v.deep = u
            del x.q.r[0].t
            c[k] = {"q": {"r": [{"v": {"deep": u}}], "w": u}}
            if x.q.w != u or x.q.r[0].v.deep != u or x["q"]["w"] != u:
                raise Violation(f"chained attribute access below {k!r} does not show what was assigned")

    def special(self, p, c, node, k):
        """A protected name, a dunder or a method: it addresses the object, also if an item has that name."""
        rng = self.rng
        how = rng.choice(["item", "item", "delitem", "setattr", "getattr"])
        self.log.append((how, p, k))
        missing = object()
        before = self.attr(node, k, missing)
        if before is missing:
            if k in PROTECTED:
                return  # no such internal here
            if not k.startswith("__") and k not in METHODS:
                return
        if k in METHODS and before is missing:
            return
        if k.startswith("__") and before is missing and how != "setattr" and k in c:
            # an item never answers for a dunder
            try:
                getattr(node, k)
            except AttributeError:
                pass
            else:
                raise Violation(f"obj.{k} is answered by the item of that name")
        if how == "item":
            v = gen_value(rng, 2, False, True)
            node[k] = clone(v)
            c[k] = v
        elif how == "delitem":
            if k in c:
                del node[k]
                del c[k]
        elif how == "setattr":
            if before is missing or k in METHODS:
                return
            if k in ("__class__", "__dict__"):
                setattr(node, k, before)
            elif k.startswith("__"):
                return
            elif p and k in ("filename", "_filename"):
                return
            else:
                # assigning what is there already must neither fail nor become an item
                inst = k in vars(node)
                try:
                    setattr(node, k, before)
                except AttributeError:
                    return  # a read-only attribute
                if not inst and k in vars(node):
                    # it was looked up on the class before
                    delattr(node, k)
        after = self.attr(node, k, missing)
        if how != "setattr" and not self.alike(before, after):
            raise Violation(f"after storing an item {k!r}, obj.{k} is {after!r:.100}; it was {before!r:.100}")
        if k in c:
            got = node[k]
            got = got() if isinstance(c[k], (dict, list)) else got
            if not same(got, c[k]):
                raise Violation(f"obj[{k!r}] is {got!r:.200}, expected {c[k]!r:.200}")
        if type(node) is not family(self.spec)[0]:
            raise Violation("the class of the object changed")

    @staticmethod
    def attr(node, k, missing):
        """What ordinary attribute lookup finds, ignoring items."""
        try:
            return object.__getattribute__(node, k)
        except AttributeError:
            return missing

    @staticmethod
    def alike(a, b):
        if a is b:
            return True
        if callable(a) or isinstance(a, (str, bool)):
            return a == b or type(a) is type(b) and callable(a)
        return type(a) is type(b)



def attr_share(w, item):
    _, name, block, n = item
    spec = spec_by_name(name)
    for k in range(n):
        rng = w.rng("attr", name, block, k)
        mode = rng.choice([None, "obj", "cls"]) if spec.buffered else None
        d = {"class": name, "seed": rng.randrange(2**40), "mode": mode, "threading": rng.random() < 0.8, "n": 25}
        c = AttrCase(w, d)
        try:
            c.run()
        except Violation as v:
            w.report(f"{name}: {v.what} [context {mode}, after {c.log[-4:]}]", v.detail, d)
            return
        except Exception as e:
            w.report(f"{name}: unexpected {type(e).__name__}: {e} [context {mode}, after {c.log[-4:]}]",
                     traceback.format_exc(), d)
            return
        w.count("evaluations", len(c.log))
        w.count("attribute histories")
        for how, p, key in c.log:
            w.sig("attr", name, how, len(p), key, mode)


def job(w, item):
    (family_share if item[0] == "family" else attr_share)(w, item)


def main():
    import_library()
    run = Run("C18")
    need_redis(run)
    f = 10 if run.tier == "thorough" else 1
    shares = []
    for s in all_specs():
        shares += [("family", s.name, b, 8 if s.backend == "zarr" else 30) for b in range(4 * f)]
        if s.attr:
            shares += [("attr", s.name, b, 60) for b in range(4 * f)]
    run_workers(run, job, shares)
    return run.finish(RULE, minimum=10000, assumptions=[
        "names starting with two underscores count as dunders",
        "the protected names _name, _sync and _suspend_sync_, which no object has, are left out"])


def replay(data):
    if "cfg" in data:
        import_library()
        run = Run("C18")
        need_redis(run)
        w = Worker(run, 0, run.scratch)
        others, _ = foreign(w)
        return history_replay("C18", data, hook=make_hook(others, 0.12, 0.4))
    import_library()
    run = Run("C18")
    w = Worker(run, 0, run.scratch)
    c = AttrCase(w, data)
    try:
        c.run()
    except Violation as v:
        print("\n".join(map(repr, c.log)))
        print("reproduced:", v.what)
        print("VIOLATION property=C18 replay=-")
        return 1
    print("not reproduced")
    return 0


_ = (os, resolve)
