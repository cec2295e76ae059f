"""C11: forbidden data never gets in, through any entry point at any depth."""
import collections
import contextlib
import datetime
import decimal
import enum
import fractions
import pathlib
import types
import uuid
from collections.abc import Mapping, Sequence

from checks.common import *  # noqa: F403
from vlib.bufworld import reset_buffer
from vlib.resources import Resource
from vlib.values import clone, containers, resolve, same

RULE = "distinct (class, entry point, site, kind of forbidden item, position of it, container types, context) attempts"


class Color(enum.Enum):
    RED = 1


class Plain:
    pass


class MyMapping(Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class MySeq(Sequence):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, i):
        return self.d[i]

    def __len__(self):
        return len(self.d)


class KeysOnly:
    """Has keys() and __getitem__ only, as dict.update accepts."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]


def bad_keys(attr):
    import numpy as np

    ks = [1, 0, -7, 1.5, None, True, False, (1, 2), (), b"k", frozenset([1]), np.int64(3), np.float64(1.5), Color.RED,
          uuid.UUID(int=5), datetime.date(2020, 1, 1), Plain(), 1j, decimal.Decimal(1), ("a",), str, np.bool_(True)]
    if attr:
        ks += ["a.b", ".", "a.", ".a", "a..b", "é.b", "x.y.z"] * 3
    return ks


def bad_values():
    import numpy as np

    return [
        object(), Plain(), {1, 2}, set(), frozenset(), 1j, Plain, len, (lambda: 1), decimal.Decimal("1.5"),
        fractions.Fraction(1, 2), datetime.datetime(2020, 1, 1), datetime.date(2020, 1, 1), datetime.timedelta(1),
        Color.RED, uuid.UUID(int=1), pathlib.PurePosixPath("x"), Ellipsis, NotImplemented, np.complex128(1j),
        np.datetime64("2020-01-01"), np.array([1j, 2]), np.array([object()], dtype=object),
        np.array([{1: 2}], dtype=object), {"a": 1}.keys(), {"a": 1}.values(), {"a": 1}.items(), iter([1]), (x for x in [1]),
        map(str, [1]), types.SimpleNamespace(a=1), slice(1, 2), re_pattern(), type, np.dtype("i4"), contextlib.suppress(),
        np.array(1j), np.timedelta64(1, "s"),
        # the forbidden element of an array is not the first one
        obj_array([1, object()]), obj_array([{"a": 1}, {2: 3}]), obj_array([[1], [{1: 2}]]), obj_array([1, 2, {3}]),
        obj_array([None, "a", 1j]), np.array([[1, 2], [3, Plain()]], dtype=object),
        obj_array([{"a": 1}, {"b": obj_array([1, Plain()])}]),
    ]


def obj_array(items):
    import numpy as np

    a = np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        a[i] = x
    return a


def re_pattern():
    import re

    return re.compile("x")


def dress(rng, v, foreign):
    """Vary the container types of a payload (deep), recursively."""
    if isinstance(v, dict):
        d = {k: dress(rng, x, foreign) for k, x in v.items()}
        r = rng.random()
        if r < 0.7:
            return d
        if r < 0.78:
            return collections.OrderedDict(d)
        if r < 0.84:
            return types.MappingProxyType(d)
        if r < 0.9:
            return collections.UserDict(d)
        if r < 0.95:
            return MyMapping(d)
        return collections.defaultdict(list, d)
    if isinstance(v, list):
        x = [dress(rng, i, foreign) for i in v]
        r = rng.random()
        if r < 0.7:
            return x
        if r < 0.85:
            return tuple(x)
        if r < 0.93:
            return collections.UserList(x)
        return MySeq(x)
    return v


def forbidden(v, attr, path="$"):
    """Where plain data breaks the rules, or None."""
    if isinstance(v, dict):
        for k, x in v.items():
            if not isinstance(k, str):
                return f"{path}: key {k!r}"
            if attr and "." in k:
                return f"{path}: key {k!r}"
            r = forbidden(x, attr, f"{path}[{k!r}]")
            if r:
                return r
        return None
    if isinstance(v, list):
        for i, x in enumerate(v):
            r = forbidden(x, attr, f"{path}[{i}]")
            if r:
                return r
        return None
    if v is None or isinstance(v, (bool, int, float, str)):
        return None
    return f"{path}: {type(v).__name__} {str(v)[:40]!r}"


def memory(node):
    """The data held in memory right now, without any synchronization."""
    data = getattr(node, "_data", None)
    if isinstance(data, dict):
        return {k: memory(v) for k, v in data.items()}
    if isinstance(data, list):
        return [memory(v) for v in data]
    if hasattr(node, "reset"):
        # kept in some other way
        return node()
    return node


START = {
    "dict": {"n": {"x": {"y": 1, "z": [1]}, "l": [{"z": 1}, 2, [3]]}, "l": [{"x": {"w": 1}}, [1, [2]], 4], "s": 5, "t": None},
    "list": [{"x": {"y": 1}, "l": [{"z": 1}, 2]}, [[1, {"p": 2}], 3], 5, None],
}
SINGLE = {"setitem", "setdefault", "append", "insert", "setattr", "setitem_i"}
DICT_OPS = ["setitem", "setitem", "setdefault", "setdefault", "update_map", "update_map", "update_pairs", "update_kw",
            "update_both", "update_keys", "update_gen", "reset", "reset", "setattr", "ctor", "update_synced"]
LIST_OPS = ["setitem_i", "setitem_i", "slice", "slice_ext", "slice_all", "slice_gen", "append", "extend", "extend_gen",
            "insert", "iadd", "iadd_gen", "reset", "reset", "ctor", "iadd_tuple", "synced"]


def plant(rng, spec, payload, where):
    """Put a forbidden item somewhere into a plain payload; returns (payload, tag).

    where: 0 = the payload itself / its top level, up to 3 levels down."""
    attr = spec.attr
    key = rng.random() < 0.5
    # a container at the wanted depth: follow an existing one or grow a new one
    if not isinstance(payload, (dict, list)):
        payload = rng.choice([{}, []])
    node = payload
    tag = []
    for _ in range(where):
        kids = [x for x in (node.values() if isinstance(node, dict) else node) if isinstance(x, (dict, list))]
        if kids and rng.random() < 0.6:
            node = rng.choice(kids)
            tag.append("old")
        else:
            new = rng.choice([{}, [], {"q": 1}, [1]])
            put(rng, node, new)
            node = new
            tag.append("new")
    if key and isinstance(node, list):
        new = {}
        put(rng, node, new)
        node = new
    if key:
        k = rng.choice(bad_keys(attr))
        node[k] = rng.choice([1, None, "v", {}, []])
        if rng.random() < 0.4:
            # the forbidden key is not the last one
            items = list(node.items())
            rng.shuffle(items)
            node.clear()
            for a, b in items:
                node[a] = b
        return payload, ("key", type(k).__name__ if not isinstance(k, str) else "dot", len(tag), tuple(tag))
    v = rng.choice(bad_values())
    put(rng, node, v)
    return payload, ("value", type(v).__name__, len(tag), tuple(tag))


def put(rng, node, v):
    if isinstance(node, dict):
        if node and rng.random() < 0.5:
            node[rng.choice(list(node))] = v
        else:
            node[rng.choice(["p", "q", "é"])] = v
    elif node and rng.random() < 0.5:
        node[rng.randrange(len(node))] = v
    else:
        node.insert(rng.randrange(len(node) + 1), v)


def synced_payload(spec, res, node, op, rng, tagbox):
    """A synced collection of a class without the rule about dots, given directly."""
    import json
    import os

    from synced_collections.backends.collection_json import JSONDict, JSONList

    tagbox[:] = ("synced", "dot", 0)
    files = [os.path.join(res.dir, n) for n in ("foreign.json", "foreignl.json")]
    with open(files[0], "w") as f:
        json.dump({"o": {"dotted.key": 1}, "dotted.key": {"x": 2}}, f)
    with open(files[1], "w") as f:
        json.dump([1, {"ok": [{"dotted.key": 1}]}, [[{"a.b": 2}]]], f)
    d, x = JSONDict(filename=files[0]), JSONList(filename=files[1])
    try:
        if op == "ctor":
            src = rng.choice([d, d["o"]] if spec.kind == "dict" else [x, x[2], x[1]["ok"]])
            res.delete()
            res.make(data=src)
            return
        v = rng.choice([d, d["o"], x, x[1], x[2], x[1]["ok"]])
        seq = rng.choice([x, x[2], x[1]["ok"]])
        i = rng.randrange(len(node))
        rng.choice([
            lambda: node.append(v), lambda: node.insert(i, v), lambda: node.__setitem__(i, v), lambda: node.extend(seq),
            lambda: node.reset(seq), lambda: node.__setitem__(slice(0, 1), seq), lambda: node.__iadd__(seq),
            lambda: node.extend([1, v]), lambda: node.__setitem__(slice(0, 1), [v]), lambda: node.reset([v]),
        ])()
    finally:
        for f in files:
            os.unlink(f)


def attempt(spec, res, root, site, op, rng, tagbox):
    """Perform the forbidden call."""
    node = root
    if op != "ctor":
        for p in site:
            node = node[p]
    where = rng.choice([0, 0, 1, 2, 3])
    foreign = None
    if spec.attr and (op == "synced" or op == "ctor" and rng.random() < 0.3):
        synced_payload(spec, res, node, op, rng, tagbox)
        return
    if op == "ctor":
        base = clone(START[spec.kind]) if rng.random() < 0.6 else ({} if spec.kind == "dict" else [])
        payload, tagbox[:] = plant(rng, spec, base, where)
        payload = dress(rng, payload, foreign)
        res.delete()
        res.make(data=payload)
        return
    current = node()
    if op in ("setitem", "setdefault", "setattr", "setitem_i", "append", "insert"):
        mode = rng.random()
        if op in ("setitem", "setdefault") and mode < 0.4:
            k = rng.choice(bad_keys(spec.attr))
            tagbox[:] = ("argkey", type(k).__name__)
            v = rng.choice([1, None, {}, [1], {"x": 1}])
            if op == "setitem":
                node[k] = v
            else:
                node.setdefault(k, v)
            return
        if mode < 0.6:
            v = rng.choice(bad_values())
            tagbox[:] = ("arg", type(v).__name__)
        else:
            base = rng.choice([{}, [], {"q": {"r": [1]}}, [[1], {"a": 1}]])
            v, tagbox[:] = plant(rng, spec, clone(base), where)
            v = dress(rng, v, foreign)
        if op == "setdefault":
            node.setdefault("fresh", v)
        elif op == "setitem":
            node[rng.choice(["fresh"] + list(current))] = v
        elif op == "setattr":
            setattr(node, rng.choice(["fresh"] + [k for k in current if k.isidentifier()]), v)
        elif op == "setitem_i":
            node[rng.randrange(-len(current), len(current))] = v
        elif op == "append":
            node.append(v)
        else:
            node.insert(rng.randrange(-1, len(current) + 2), v)
        return
    base = clone(current)
    if isinstance(base, dict):
        if rng.random() < 0.4:
            base = {"new": {"a": [1]}, "e": 1}
        if op == "update_kw" or op == "update_both":
            # keywords are strings; the item is forbidden as a value, or as a dotted key
            payload, tagbox[:] = plant(rng, spec, {"kw": base}, max(1, where))
            payload = {str(k): v for k, v in payload.items()}
            payload = {k: dress(rng, v, foreign) for k, v in payload.items()}
            if op == "update_kw":
                node.update(**payload)
            else:
                node.update({"okay": 1}, **payload)
            return
        payload, tagbox[:] = plant(rng, spec, base, where)
        if op == "update_synced" and spec.attr and rng.random() < 0.8:
            from synced_collections.backends.collection_json import JSONDict
            import json
            import os

            p = os.path.join(res.dir, "foreign.json")
            with open(p, "w") as f:
                json.dump({"o": {"dotted.key": 1}, "dotted.key": {"x": 2}}, f)
            j = JSONDict(filename=p)
            tagbox[:] = ("synced", "dot", 0)
            try:
                rng.choice([
                    lambda: node.update(j), lambda: node.__setitem__("fresh", j), lambda: node.__setitem__("fresh", j["o"]),
                    lambda: node.reset(j), lambda: node.update(fresh=j["o"]), lambda: node.update(j["o"]),
                    lambda: node.setdefault("fresh", j), lambda: node.update([("okay", 1), ("fresh", j["o"])]),
                ])()
            finally:
                os.unlink(p)
            return
        if op == "update_pairs":
            node.update([(k, dress(rng, v, foreign)) for k, v in payload.items()])
        elif op == "update_gen":
            node.update((k, dress(rng, v, foreign)) for k, v in payload.items())
        elif op == "update_keys":
            node.update(KeysOnly({k: dress(rng, v, foreign) for k, v in payload.items()}))
        elif op == "reset":
            node.reset(dress(rng, payload, foreign))
        else:
            node.update(dress(rng, payload, foreign))
        return
    if rng.random() < 0.4:
        base = [{"a": [1]}, [2], 3]
    payload, tagbox[:] = plant(rng, spec, base, where)
    payload = [dress(rng, x, foreign) for x in payload]
    n = len(current)
    if op == "slice":
        i = rng.randrange(n + 1)
        node[i:rng.randrange(i, n + 1)] = payload
    elif op == "slice_all":
        node[:] = payload
    elif op == "slice_gen":
        node[:1] = (x for x in payload)
    elif op == "slice_ext":
        # same length as the list, with the forbidden item somewhere
        bad, tagbox[:] = plant(rng, spec, [1], where)
        full = [dress(rng, rng.choice([1, {"a": 2}]), foreign) for _ in range(n)]
        full[rng.randrange(n)] = bad
        node[::-1] = full
    elif op == "extend":
        node.extend(rng.choice([list, tuple])(payload))
    elif op == "extend_gen":
        node.extend(x for x in payload)
    elif op == "iadd":
        node += payload
    elif op == "iadd_gen":
        node += (x for x in payload)
    elif op == "iadd_tuple":
        node += tuple(payload)
    else:
        node.reset(dress(rng, payload, foreign) if rng.random() < 0.5 else payload)


def one(w, name, op, site, seed, mode):
    """One attempt; raises Violation."""
    spec = spec_by_name(name)
    rng = random.Random(seed)
    set_threading(spec, rng.random() < 0.8)
    res = Resource(spec, w.scratch, rng.random() < 0.3)
    cls = spec.cls
    tag = []
    try:
        start = START[spec.kind]
        res.raw_write(start)
        root = res.make()
        root()
        before = res.raw_read()
        if mode == "obj":
            ctx = root.buffered
        elif mode == "cls":
            ctx = cls.buffer_backend()
        else:
            ctx = contextlib.nullcontext()
        with ctx:
            if mode:
                root["pre" if spec.kind == "dict" else 2] = 77
                before["pre" if spec.kind == "dict" else 2] = 77
            exc = None
            try:
                attempt(spec, res, root, site, op, rng, tag)
            except Exception as e:  # noqa: BLE001
                exc = e
            what = f"{op} with {tuple(tag)} at {list(site)}"
            mem = memory(root)
            if exc is None:
                raise Violation(f"{name}: {what} was accepted; content now {str(res.raw_read())[:300]}")
            if not isinstance(exc, (TypeError, ValueError)):
                raise Violation(f"{name}: {what} raised {type(exc).__name__}: {exc}")
            bad = forbidden(mem, spec.attr)
            if bad:
                raise Violation(f"{name}: after the rejected {what} the memory holds {bad}")
            if op == "ctor":
                if res.raw_read() is not MISSING:
                    raise Violation(f"{name}: the rejected {what} created the resource: {res.raw_read()!r}")
                res.raw_write(start)
                return tag
            shown = root()
            bad = forbidden(shown, spec.attr)
            if bad:
                raise Violation(f"{name}: after the rejected {what} the collection shows {bad}")
            if op in SINGLE and not same(shown, before):
                raise Violation(f"{name}: the rejected {what} changed the content: {shown!r}, before {before!r}")
            # the collection still works, and saves what it shows
            u = rng.randrange(10**6)
            if spec.kind == "dict":
                root["after"] = u
                shown["after"] = u
            else:
                root.append(u)
                shown.append(u)
        raw = res.raw_read()
        bad = forbidden(raw, spec.attr)
        if bad:
            raise Violation(f"{name}: after the rejected {what} the resource holds {bad}")
        if not same(raw, shown):
            raise Violation(f"{name}: after the rejected {what} the resource holds {raw!r}, expected {shown!r}")
        return tag
    finally:
        set_threading(spec, True)
        if spec.buffered:
            reset_buffer(cls)
        res.dispose()


def sites(kind):
    """(path, kind of container) of every site in the start content."""
    return [(p, "dict" if isinstance(c, dict) else "list") for p, c in containers(START[kind])]


def share(w, item):
    name, block, n = item
    spec = spec_by_name(name)
    plan = []
    for path, kind in sites(spec.kind):
        for op in sorted(set(DICT_OPS if kind == "dict" else LIST_OPS)):
            if op == "ctor" and path:
                continue
            if op in ("setattr", "synced") and not spec.attr:
                continue
            if op in ("setitem_i", "slice_ext") and not resolve(START[spec.kind], path):
                continue
            plan.append((op, path))
    for k in range(n):
        for op, path in plan:
            seed = repr((w.seed, name, op, path, block, k))
            r = random.Random(seed + "m").random()
            mode = None if not spec.buffered or r < 0.4 or op == "ctor" else ("obj" if r < 0.7 else "cls")
            data = {"class": name, "op": op, "site": path, "seed": seed, "mode": mode}
            try:
                tag = one(w, name, op, path, seed, mode)
            except Violation as v:
                w.report(v.what, v.detail, data)
                return
            except Exception as e:
                w.report(f"{name}: {op} at {list(path)}: unexpected {type(e).__name__}: {e}", traceback.format_exc(), data)
                return
            w.count("evaluations")
            w.count(f"op:{op}")
            w.sig(name, op, path, tag, mode)
            if len(w.samples) < 2:
                w.sample({"class": name, "op": op, "site": path, "forbidden": tag, "context": mode})


def main():
    import_library()
    run = Run("C11")
    need_redis(run)
    per = 240 if run.tier == "thorough" else 60
    shares = []
    for spec in all_specs():
        for b in range(per // 6):
            shares.append((spec.name, b, 6))
    run_workers(run, share, shares)
    return run.finish(RULE, minimum=20000, assumptions=[
        "bytes, NaN, infinities and circular structures are left out: their status is not specified"])


def replay(data):
    import_library()
    run = Run("C11")
    need_redis(run)
    w = Worker(run, 0, run.scratch)
    try:
        print(one(w, data["class"], data["op"], data["site"], data["seed"], data["mode"]))
    except Violation as v:
        print("reproduced:", v.what)
        print("VIOLATION property=C11 replay=-")
        return 1
    print("not reproduced")
    return 0
