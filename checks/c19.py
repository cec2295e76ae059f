"""C19: how a value is classified never depends on what was processed before.

Every (class, operation, value) is run once in a process that has done nothing
but import the library. Long histories then run the same triples in many
orders, in one process each, and compare every outcome with the fresh one.
"""
import array
import collections
import datetime
import decimal
import enum
import gc
import os
import pickle
import types
from collections.abc import Mapping, MutableMapping, MutableSequence, Sequence

from checks.common import *  # noqa: F403
from vlib.resources import Resource
from vlib.values import clone

RULE = "distinct (class, operation, value, number of earlier operations, previous value of the same type) outcomes compared"


class Color(enum.Enum):
    RED = 1


class Num(enum.IntEnum):
    ONE = 1


class SubStr(str):
    pass


class SubInt(int):
    pass


class SubFloat(float):
    pass


class SubDict(dict):
    pass


class SubList(list):
    pass


class MyMapping(Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class MySeq(Sequence):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, i):
        return self.d[i]

    def __len__(self):
        return len(self.d)


class Chameleon:
    """Pretends to be of the class of what it holds; both kinds share one type."""

    def __init__(self, v):
        object.__setattr__(self, "v", v)

    @property
    def __class__(self):
        return type(self.v)

    def __getattr__(self, n):
        return getattr(self.v, n)

    def __getitem__(self, k):
        return self.v[k]

    def __iter__(self):
        return iter(self.v)

    def __len__(self):
        return len(self.v)


class Virtual:
    """Registered as a sequence."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, i):
        return self.d[i]

    def __len__(self):
        return len(self.d)


class Meta(type):
    """Instances are sequences depending on an attribute of the class."""


Sequence.register(Virtual)
Point = collections.namedtuple("Point", "x y")


def other_module_class(name, bases, body):
    """A class with the same name as one of the above."""
    return type(name, bases, dict(body, __module__="elsewhere"))


FakeMapping = other_module_class("MyMapping", (), {})
FakeDict = other_module_class("dict", (), {})
FakeList = other_module_class("list", (), {})
FakeNd = other_module_class("ndarray", (), {})
GoodNamed = other_module_class("Plain", (dict,), {})


class Plain:
    pass


# a base class which is refused does not decide about classes derived from it
class PlainDict(Plain, dict):
    pass


class PlainList(Plain, list):
    pass


class PlainStr(Plain, str):
    pass


class PlainInt(Plain, int):
    pass


class PlainMapping(Plain, MyMapping):
    pass


class PlainSeq(Plain, MySeq):
    pass


def dyn_mapping():
    cls = type("Dyn", (dict,), {})
    return cls(a=1)


def dyn_list():
    cls = type("Dyn", (list,), {})
    return cls([1])


def dyn_plain():
    cls = type("Dyn", (), {})
    return cls()


def dyn_str():
    cls = type("Dyn", (str,), {})
    return cls("x")


def dyn_userdict():
    cls = type("Dyn", (collections.UserDict,), {})
    return cls({"a": 1})


def make_factories(scratch):
    import numpy as np
    import wrapt
    from unittest import mock

    P = wrapt.ObjectProxy
    F = {
        "none": lambda: None, "true": lambda: True, "int": lambda: 3, "float": lambda: 1.5, "str": lambda: "abc",
        "emptystr": lambda: "", "dict": lambda: {"a": 1}, "emptydict": dict, "list": lambda: [1, 2], "emptylist": list,
        "tuple": lambda: (1, 2), "bytes": lambda: b"ab", "bytearray": lambda: bytearray(b"ab"), "range": lambda: range(3),
        "set": lambda: {1}, "frozenset": lambda: frozenset([1]), "complex": lambda: 1j, "object": object,
        "deque": lambda: collections.deque([1]), "odict": lambda: collections.OrderedDict(a=1),
        "defaultdict": lambda: collections.defaultdict(list, a=[1]), "userdict": lambda: collections.UserDict(a=1),
        "userlist": lambda: collections.UserList([1]), "userstring": lambda: collections.UserString("ab"),
        "chainmap": lambda: collections.ChainMap({"a": 1}, {"b": 2}), "counter": lambda: collections.Counter("aab"),
        "proxytype": lambda: types.MappingProxyType({"a": 1}), "namespace": lambda: types.SimpleNamespace(a=1),
        "namedtuple": lambda: Point(1, 2), "array": lambda: array.array("i", [1, 2]), "memoryview": lambda: memoryview(b"ab"),
        "decimal": lambda: decimal.Decimal(1), "date": lambda: datetime.date(2020, 1, 1), "enum": lambda: Color.RED,
        "intenum": lambda: Num.ONE, "substr": lambda: SubStr("s"), "subint": lambda: SubInt(4), "subfloat": lambda: SubFloat(2.5),
        "subdict": lambda: SubDict(a=1), "sublist": lambda: SubList([1]), "mymapping": lambda: MyMapping({"a": 1}),
        "mymapping_bad": lambda: MyMapping({1: 1}), "myseq": lambda: MySeq([1]), "myseq_bad": lambda: MySeq([object()]),
        "myseq_nested": lambda: MySeq([MyMapping({"a": MySeq([])})]),
        "cham_dict": lambda: Chameleon({"a": 1}), "cham_list": lambda: Chameleon([1]), "cham_int": lambda: Chameleon(5),
        "cham_set": lambda: Chameleon({1}), "cham_str": lambda: Chameleon("x"),
        "virtual": lambda: Virtual([1]), "plain": Plain, "plainclass": lambda: Plain, "goodnamed": lambda: GoodNamed(a=1),
        "plaindict": lambda: PlainDict(a=1), "plainlist": lambda: PlainList([1]), "plainstr": lambda: PlainStr("x"),
        "plainint": lambda: PlainInt(3), "plainmapping": lambda: PlainMapping({"a": 1}), "plainseq": lambda: PlainSeq([1]),
        "fakemapping": FakeMapping, "fakedict": FakeDict, "fakelist": FakeList, "fakend": FakeNd,
        "prx_dict": lambda: P({"a": 1}), "prx_list": lambda: P([1]), "prx_int": lambda: P(5), "prx_str": lambda: P("x"),
        "prx_none": lambda: P(None), "prx_obj": lambda: P(object()), "prx_prx": lambda: P(P([1])), "prx_float": lambda: P(0.5),
        "prx_bool": lambda: P(True), "prx_tuple": lambda: P((1,)), "prx_nd": lambda: P(np.arange(2)),
        "nd0": lambda: np.array(3), "nd0f": lambda: np.array(1.5), "nd1": lambda: np.array([1, 2]), "nd2": lambda: np.ones((2, 2)),
        "nd_empty": lambda: np.array([]), "nd0c": lambda: np.array(1j), "nd1c": lambda: np.array([1j]),
        "nd0o": lambda: np.array(object(), dtype=object), "nd1o": lambda: np.array([object(), 1], dtype=object),
        "nd0o_dict": lambda: np.array({"a": 1}, dtype=object), "nd1o_dict": lambda: np.array([{"a": 1}], dtype=object),
        "nd_str": lambda: np.array(["a", "b"]), "nd0_str": lambda: np.array("a"), "nd_bool": lambda: np.array([True]),
        "np_i": lambda: np.int32(7), "np_f": lambda: np.float32(0.5), "np_b": lambda: np.bool_(True), "np_c": lambda: np.complex64(1),
        "np_str": lambda: np.str_("x"), "np_dt": lambda: np.datetime64("2020-01-01"), "np_void": lambda: np.void(b"ab"),
        "matrix": lambda: np.matrix([[1, 2]]), "masked": lambda: np.ma.array([1, 2], mask=[0, 1]),
        "nd_rec": lambda: np.zeros(2, dtype=[("a", "i4")]), "np_rec0": lambda: np.zeros((), dtype=[("a", "i4")]),
        "generator": lambda: (x for x in [1]), "iterator": lambda: iter([1]), "function": lambda: len, "ellipsis": lambda: ...,
        "dictkeys": lambda: {"a": 1}.keys(), "dictitems": lambda: {"a": 1}.items(), "mock": lambda: mock.Mock(),
        "magicmock": lambda: mock.MagicMock(), "dyn_mapping": dyn_mapping, "dyn_list": dyn_list, "dyn_plain": dyn_plain,
        "dyn_str": dyn_str, "dyn_userdict": dyn_userdict, "badkey": lambda: {1: 2}, "dotkey": lambda: {"a.b": 1},
        "deepbad": lambda: {"a": [{"b": {2: 3}}]}, "deepobj": lambda: [{"a": (object(),)}], "pairs": lambda: [["a", 1], ("b", [2])],
        "badpairs": lambda: [[1, 1]], "deep": lambda: {"a": [1, {"b": [np.array([1, 2])]}], "c": P({"d": P([1])})},
        "nan": lambda: {"a": [True, 1, 1.0]}, "listofnd": lambda: [np.array(1), np.array([1]), np.int8(1)],
    }

    def synced(name, k):
        def make():
            res = Resource(spec_by_name(name), scratch)
            data = {"p": {"q": 1}, "l": [1]} if name.endswith("Dict") else [{"q": 1}, [1]]
            res.raw_write(data)
            o = res.make()
            if k is None:
                return o
            return o["p" if k == "d" else "l"] if name.endswith("Dict") else o[0 if k == "d" else 1]
        return make

    for name in ("JSONDict", "JSONList", "JSONAttrDict", "BufferedJSONDict", "MemoryBufferedJSONList", "ZarrDict", "MongoDBList"):
        for k in (None, "d", "l"):
            F[f"synced_{name}_{k}"] = synced(name, k)
    return F


CLASSES = ["JSONDict", "JSONAttrDict", "BufferedJSONDict", "MemoryBufferedJSONAttrDict", "ZarrDict", "RedisDict", "MongoDBDict",
           "JSONList", "JSONAttrList", "BufferedJSONAttrList", "MemoryBufferedJSONList", "ZarrList", "MongoDBList", "RedisList"]


def retarget(o, v, put):
    """A proxy which changes what it stands for."""
    import wrapt

    p = wrapt.ObjectProxy({"z": 1})
    put(o, p)
    p.__wrapped__ = v
    put(o, p)


def mutated_class(o, v, put):
    """The same object is stored, changed and stored again."""
    box = [1]
    put(o, box)
    box.append(v)
    put(o, box)


def attempt(f, v):
    try:
        r = f(v)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__
    return r if isinstance(r, (bool, int, float, str)) else type(r).__name__


def public(o, v):
    """The functions which classify a value without storing it."""
    import json

    from synced_collections import utils, validators
    from synced_collections.backends import collection_json

    child = o["l"] if hasattr(o, "items") else o[0]
    fs = [type(o).is_base_type, type(child).is_base_type,
          lambda v: json.dumps(v, cls=utils.SyncedCollectionJSONEncoder)]
    for m, n in ((validators, "no_dot_in_key"), (validators, "require_string_key"), (validators, "json_format_validator"),
                 (collection_json, "json_attr_dict_validator")):
        if hasattr(m, n):
            fs.append(getattr(m, n))
    return " ".join(str(attempt(f, v)) for f in fs)


DICT_OPS = {
    "public": public,
    "setitem": lambda o, v: o.__setitem__("k", v),
    "setitem_over": lambda o, v: o.__setitem__("d", v),
    "nested": lambda o, v: o.__setitem__("k", {"x": v}),
    "nested_list": lambda o, v: o.__setitem__("k", [v]),
    "setdefault": lambda o, v: o.setdefault("k", v),
    "update": lambda o, v: o.update(v),
    "update_kw": lambda o, v: o.update(k=v),
    "update_pairs": lambda o, v: o.update([("k", v)]),
    "reset": lambda o, v: o.reset(v),
    "reset_in": lambda o, v: o.reset({"d": v, "l": v}),
    "child_set": lambda o, v: o["d"].__setitem__("x", v),
    "child_reset": lambda o, v: o["d"].reset(v),
    "list_append": lambda o, v: o["l"].append(v),
    "list_reset": lambda o, v: o["l"].reset(v),
    "list_extend": lambda o, v: o["l"].extend(v),
    "key": lambda o, v: o.__setitem__(v, 1),
    "eq": lambda o, v: o["l"] == v,
    "eq_d": lambda o, v: o["d"] == v,
    "contains": lambda o, v: v in o["l"],
    "retarget": lambda o, v: retarget(o, v, lambda o, p: o.__setitem__("k", p)),
    "grown": lambda o, v: mutated_class(o, v, lambda o, p: o.__setitem__("k", p)),
    "equal_then": lambda o, v: (o.__setitem__("k", 1), o.__setitem__("k", v)),
}
LIST_OPS = {
    "public": public,
    "append": lambda o, v: o.append(v),
    "insert": lambda o, v: o.insert(0, v),
    "setitem_i": lambda o, v: o.__setitem__(0, v),
    "slice": lambda o, v: o.__setitem__(slice(0, 1), v),
    "slice_in": lambda o, v: o.__setitem__(slice(0, 1), [v]),
    "extend": lambda o, v: o.extend(v),
    "extend_in": lambda o, v: o.extend([v, {"x": v}]),
    "iadd": lambda o, v: o.__iadd__(v),
    "reset": lambda o, v: o.reset(v),
    "reset_in": lambda o, v: o.reset([v, v]),
    "child_set": lambda o, v: o[0].__setitem__("x", v),
    "child_append": lambda o, v: o[1].append(v),
    "remove": lambda o, v: o.remove(v),
    "eq": lambda o, v: o == v,
    "lt": lambda o, v: o < v,
    "index": lambda o, v: o.index(v),
    "retarget": lambda o, v: retarget(o, v, lambda o, p: o.append(p)),
    "grown": lambda o, v: mutated_class(o, v, lambda o, p: o.append(p)),
}
START = {"dict": {"d": {"x": 1}, "l": [1, 2]}, "list": [{"x": 1}, [1, 2], 3]}


def describe(v):
    """An outcome that can be compared between processes."""
    from synced_collections import SyncedCollection

    if isinstance(v, SyncedCollection):
        return (type(v).__name__, repr(v()))
    return (type(v).__name__, repr(v)[:300] if isinstance(v, (bool, int, float, str, type(None))) else "")


def outcome(scratch, factories, cname, op, fname):
    spec = spec_by_name(cname)
    res = Resource(spec, scratch)
    created = None
    try:
        v = factories[fname]()
        created = v
        if op == "ctor":
            try:
                o = res.make(data=v)
            except Exception as e:  # noqa: BLE001
                return ("err", type(e).__name__)
            return ("ok",) + observed(lambda: types_of(o), lambda: repr(o()))
        res.raw_write(START[spec.kind])
        o = res.make()
        f = (DICT_OPS if spec.kind == "dict" else LIST_OPS)[op]
        try:
            r = f(o, v)
        except Exception as e:  # noqa: BLE001
            first = ("err", type(e).__name__)
        else:
            first = ("ok", describe(r) if op in ("public", "setdefault", "eq", "eq_d", "contains", "lt", "index") else None)
        return first + observed(lambda: types_of(o), lambda: repr(o()), lambda: repr(res.raw_read()))
    finally:
        res.dispose()
        tidy(created)


def observed(*fs):
    """What can be seen of the object afterwards; an object which cannot be read is an outcome too."""
    out = []
    for f in fs:
        try:
            out.append(f())
        except Exception as e:  # noqa: BLE001
            out.append("unreadable: " + type(e).__name__)
    return tuple(out)


def tidy(v):
    """Remove the files of synced values made by a factory."""
    name = getattr(v, "_filename", None)
    if isinstance(name, str) and "verif-sc-" in name and os.path.exists(name):
        os.unlink(name)


def types_of(node):
    """Class names of all nodes held in memory, as navigation finds them."""
    from synced_collections import SyncedCollection

    out = []

    def walk(n, depth):
        out.append(type(n).__name__)
        if isinstance(n, SyncedCollection) and depth < 5:
            for k in (sorted(n) if hasattr(n, "items") else range(len(n))):
                walk(n[k], depth + 1)

    walk(node, 0)
    return " ".join(out)


def triples(factories):
    for c in CLASSES:
        ops = list(DICT_OPS if c.endswith("Dict") else LIST_OPS) + ["ctor"]
        for op in ops:
            for f in factories:
                yield c, op, f


def fresh(w, factories, batch):
    """Outcomes of single operations, each in its own process."""
    out = []
    for t in batch:
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                data = pickle.dumps(outcome(w.scratch, factories, *t))
                os.write(wr, data)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        blob = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            blob += x
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if status:
            raise RuntimeError(f"fresh process for {t} failed ({status})")
        out.append((t, pickle.loads(blob)))
    return out


def base_share(w, item):
    factories = make_factories(w.scratch)
    path = os.path.join(w.run.scratch, f"base{item[1]}.pkl")
    with open(path, "wb") as f:
        pickle.dump(fresh(w, factories, item[2]), f)
    w.count("fresh processes", len(item[2]))
    w.sig("base", item[1])


def history(w, factories, base, seed, todo):
    """One long history in a process of its own; returns (done, mismatch or None)."""
    rng = random.Random(seed)
    last = {}
    done = []
    for n, t in enumerate(todo):
        if rng.random() < 0.02:
            gc.collect()
        got = outcome(w.scratch, factories, *t)
        done.append(t)
        if got != base[t]:
            return done, (t, base[t], got), last
        last[t[2]] = n
    return done, None, last


def history_share(w, item):
    """Runs in a forked child, so that every history starts from the imported state."""
    _, seed, n = item
    factories = make_factories(w.scratch)
    base = BASE
    keys = sorted(base)
    for k in range(n):
        rng = w.rng("history", seed, k)
        # few kinds of values or many; one class or all
        mode = rng.random()
        names = sorted(factories)
        if mode < 0.5:
            group = names
            if rng.random() < 0.6:
                # values which share a type, or a name, although they are of different kinds
                pre = rng.choice(GROUPS)
                group = [n for n in names if n.startswith(pre)]
            fs = set(rng.sample(group, min(len(group), rng.choice([2, 3, 5, 8]))))
            pool = [t for t in keys if t[2] in fs]
            todo = [rng.choice(pool) for _ in range(60)]
        elif mode < 0.8:
            todo = [rng.choice(keys) for _ in range(250)]
        else:
            c = rng.choice(CLASSES)
            pool = [t for t in keys if t[0] == c]
            todo = [rng.choice(pool) for _ in range(200)]
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                data = pickle.dumps(history(w, factories, base, seed, todo)[:2])
                with os.fdopen(wr, "wb") as f:
                    f.write(data)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        with os.fdopen(r, "rb") as f:
            blob = f.read()
        _, status = os.waitpid(pid, 0)
        if status:
            raise RuntimeError(f"history process failed ({status})")
        done, bad = pickle.loads(blob)
        w.count("evaluations", len(done))
        w.count("histories")
        for i, t in enumerate(done):
            w.sig(t, done[i - 1][2] if i else None)
        if bad:
            small = shrink(done[:-1], lambda c: fails(w, factories, base, c + [done[-1]]), 10.0)
            t, want, got = bad
            w.report(f"{t[0]}: {t[1]} of {t[2]} gives {got!r:.300} after {small!r:.300}, in a fresh process {want!r:.300}",
                     None, {"steps": small + [t]})
            return
        if len(w.samples) < 2:
            w.sample({"history": done[:5], "last outcome": repr(base[done[-1]])[:200]})


def fails(w, factories, base, todo):
    pid = os.fork()
    if pid == 0:
        code = 2
        try:
            code = 1 if history(w, factories, base, 0, todo)[1] else 0
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status) == 1


BASE = {}
GROUPS = [("prx_",), ("nd",), ("cham_",), ("dyn_",), ("mym", "mys"), ("fake", "plain", "goodnamed", "mymapping"), ("np_", "nd0"),
          ("sub", "dict", "list", "str", "int")]


def load_base(run):
    for n in sorted(os.listdir(run.scratch)):
        if n.startswith("base") and n.endswith(".pkl"):
            with open(os.path.join(run.scratch, n), "rb") as f:
                BASE.update(pickle.load(f))


def main():
    import_library()
    run = Run("C19")
    need_redis(run)
    f = 10 if run.tier == "thorough" else 1
    all_specs()  # imports all backends
    # the values must not be touched by the library before the histories fork
    rng = random.Random(repr((run.seed, "C19")))
    names = list(make_factories(run.scratch))
    ts = list(triples(names))
    rng.shuffle(ts)
    # half of what is compared: values which share a type although they are of different kinds
    pre = tuple(p for g in GROUPS[:5] for p in g)
    first = [t for t in ts if t[2].startswith(pre)][:2000]
    chosen = set(first)
    ts = first + [t for t in ts if t not in chosen]
    ts = ts[: 4000 if run.tier == "quick" else len(ts)]
    gc.collect()
    gc.freeze()
    run_workers(run, base_share, [("base", i, ts[i::64]) for i in range(64)])
    if not run.violations:
        if os.environ.get("VERIF_DEBUG"):
            import time

            print("base", time.time() - run.t0)
        load_base(run)
        run_workers(run, history_share, [("history", i, 4) for i in range(60 * f)])
    return run.finish(RULE, minimum=5000, assumptions=[
        "a forked child of a process that only imported the library counts as a fresh process"])


def replay(data):
    import_library()
    run = Run("C19")
    need_redis(run)
    w = Worker(run, 0, run.scratch)
    factories = make_factories(run.scratch)
    steps = [tuple(t) for t in data["steps"]]
    BASE.update(fresh(w, factories, sorted(set(steps))))
    bad = fails(w, factories, BASE, steps)
    for t in steps:
        print(t, BASE[t])
    print("reproduced" if bad else "not reproduced")
    if bad:
        print("VIOLATION property=C19 replay=-")
    return 1 if bad else 0


_ = (clone, Meta, MutableMapping, MutableSequence)
