"""C12: every JSON value is accepted and round-trips exactly."""
import collections
import contextlib
import json

from checks.common import *  # noqa: F403
from vlib.bufworld import reset_buffer
from vlib.resources import Resource
from vlib.values import clone, containers, gen_value, resolve, same, shape

RULE = "distinct (class, entry point, site, value) round trips read back through a fresh object"

STRINGS = [
    "", " ", "\n", "\t\r\n", "\x00", "\x01\x1f\x7f", "\"", "\\", "\\\\\"", "/", "</script>", "  ", "é", "é",
    "ß", "İ", "ﬁ", "中文", "עברית", "😀", "👩‍👩‍👧", "﻿", "�", "￿", "null", "true", "1", "1.0", "NaN", "Infinity",
    "{}", "[]", "{\"a\": 1}", "\\u0041", "\\n", "a" * 5000, "é😀" * 700, "2020-01-01T00:00:00Z", "%s", "{0}", "$oid", "\u0085",
    "\U0010ffff", "'", "`", "a\u0000b", "\x80\x9f", " lead", "trail ",
]
INTS = [0, 1, -1, 2, 255, 2**31 - 1, 2**31, -(2**31), 2**32, 2**53, 2**53 + 1, -(2**53) - 1, 2**62, 2**63 - 1, -(2**63)]
BIGINTS = [2**63, -(2**63) - 1, 2**64, 2**64 + 1, 10**30, -(10**40), 2**200 + 1, 10**400 + 7]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, 1e16, 1e15, 123456789012345680.0, 1e22, 1e23, 5e-324, 2.2250738585072014e-308,
          1.7976931348623157e308, -1e-7, 1e-5, 100.0, 2.0**53, 2.0**63, 1e100, 3.14159]
KEYS = ["", " ", "a", "A", "é", "é", "key with space", "0", "-1", "1.5".replace(".", "_"), "null", "true", "\n", "\"", "\\",
        "$set", "$", "_id", "data", "filename", "_data", "_root", "keys", "items", "update", "reset", "__class__", "__len__",
        "_load", "__x", "😀", "k" * 2000, "﻿", "None", "self", "_parent", "_suspend_sync", "parent", "write_concern",
        "MongoDBCollection::name", "{}", "class", "def"]
DOTKEYS = ["a.b", ".", "..", "a.", ".a", "1.5", "$a.b"]


def deep(n, leaf, rng):
    v = leaf
    for _ in range(n):
        v = {"d": v} if rng.random() < 0.5 else [v]
    return v


def in_lists(n, v):
    for _ in range(n):
        v = [v]
    return v


def in_dicts(n, v):
    for _ in range(n):
        v = {"d": v}
    return v


def corpus(spec, rng):
    """Hand-picked values for this class."""
    ints = INTS + (BIGINTS if spec.big else [])
    strings = [s for s in STRINGS]
    keys = KEYS + (DOTKEYS if spec.dots else [])
    if spec.backend != "mongo":
        keys = keys + ["\x00", "a\x00b"]
    out = [None, True, False, {}, [], [[]], [{}], {"e": {}}, {"e": []}, [None], {"n": None}, [[], {}, [[]]], [[[[[]]]]],
           [None, True, False, 0, 1, 0.0, 1.0, "", "0"], {"a": True, "b": 1, "c": 1.0, "d": "1", "e": None},
           [1, 1.0, True], [0, 0.0, False], [True, 1], [1, True], [[1], [True], [1.0]]]
    out += strings + ints + FLOATS
    out += [{k: 1} for k in keys] + [{k: {k: [k]}} for k in keys]
    out += [{k: i for i, k in enumerate(keys)}, list(ints), list(FLOATS), list(strings)]
    out += [deep(30, 5, rng), deep(45, {}, rng), deep(45, [], rng), deep(12, "x", rng)]
    out += [f(n, leaf) for f in (in_lists, in_dicts) for n, leaf in ((33, 1), (65, None), (80, "x"))]
    # one of several large ones, beyond the usual limits
    out += [rng.choice([lambda: "s" * (2**16 + 1), lambda: "é" * (2**15 + 3), lambda: "x\n\"" * 400000, lambda: list(range(70000)),
                        lambda: {"k" * (2**16 + 9): 1}, lambda: {f"k{i}": i for i in range(20000)}])() for _ in range(2)]
    out += [list(range(1500)), {f"k{i}": i for i in range(700)}, [[i, {"v": [i]}] for i in range(150)]]
    out += [{"é": {"": [{"": [None]}]}}, {"é": 1, "é": 2}, {"a": 1, "A": 2, " a": 3}]
    return out


START = {
    "dict": {"n": {"x": {"y": 1}, "l": [{"z": 1}, 2]}, "l": [{"x": 1}, [1], 4], "v": 1},
    "list": [{"x": {"y": 1}, "l": [1]}, [[1], {"p": 2}], 1],
}
# op: function(node, value, rng-chosen number); node is a synced collection or the plain model
DICT_OPS = {
    "setitem_new": lambda n, v, i: n.__setitem__("new", v),
    "setitem_old": lambda n, v, i: n.__setitem__(sorted(n)[i % len(n)] if len(n) else "new", v),
    "setdefault": lambda n, v, i: n.setdefault("new", v),
    "update_map": lambda n, v, i: n.update({"new": v, "other": [v]}),
    "update_kw": lambda n, v, i: n.update(new=v, v=v),
    "update_pairs": lambda n, v, i: n.update([("new", v), ("o", {"p": v})]),
    "update_gen": lambda n, v, i: n.update((k, x) for k, x in {"new": v, "o": 1}.items()),
    "update_both": lambda n, v, i: n.update({"o": v}, new=v),
    "update_key": lambda n, v, i: n.update(v if isinstance(v, dict) else {"new": v}),
    "nest_setitem": lambda n, v, i: n.__setitem__("new", {"p": [v, {"q": v}]}),
}
LIST_OPS = {
    "append": lambda n, v, i: n.append(v),
    "extend": lambda n, v, i: n.extend([v, [v]]),
    "extend_gen": lambda n, v, i: n.extend(x for x in [v, {"p": v}]),
    "extend_tuple": lambda n, v, i: n.extend((v,)),
    "insert": lambda n, v, i: n.insert(i % (len(n) + 1), v),
    "iadd": lambda n, v, i: n.__iadd__([v, v]),
    "setitem_i": lambda n, v, i: n.__setitem__(i % len(n), v) if len(n) else n.append(v),
    "setitem_neg": lambda n, v, i: n.__setitem__(-1, v) if len(n) else n.append(v),
    "slice": lambda n, v, i: n.__setitem__(slice(0, 1), [v, v]),
    "slice_all": lambda n, v, i: n.__setitem__(slice(None), [v, {"p": v}]),
    "slice_ext": lambda n, v, i: n.__setitem__(slice(None, None, -1), [v] * len(n)),
    "nest_append": lambda n, v, i: n.append({"p": [v, {"q": v}]}),
}
EQUALS = [(1, True), (True, 1), (1, 1.0), (1.0, 1), (0, False), (False, 0), (0, 0.0), (0.0, False), (True, 1.0), (1.0, True),
          ([1], [True]), ([1], [1.0]), ({"a": 1}, {"a": True}), ({"a": [0]}, {"a": [False]}), ([[1.0]], [[1]]),
          ({"a": {"b": 2}}, {"a": {"b": 2.0}}), ([1, [0, {"k": True}]], [1, [0, {"k": 1}]]), ("1", 1), (None, False), ([], {}),
          ({}, []), (None, 0), ("", None), (2**53, 2.0**53), ({"": 1}, {}), ([None], []), ({"a": None}, {})]


def reset_plain(node, value):
    node.clear()
    (node.update if isinstance(node, dict) else node.extend)(value)


def do(node, model, op, v, i):
    """Apply the operation to both sides."""
    if op == "reset":
        value = ({"r": v} if not isinstance(v, dict) else v) if isinstance(model, dict) else (
            v if isinstance(v, list) else [v])
        node.reset(clone(value))
        reset_plain(model, clone(value))
    elif op == "setattr":
        node.new = clone(v)
        model["new"] = clone(v)
    else:
        f = (DICT_OPS if isinstance(model, dict) else LIST_OPS)[op]
        f(model, clone(v), i)
        f(node, clone(v), i)


def one(w, name, op, path, v, old, i, mode, threading, wc):
    """Store v (over old, if given) through one entry point and read it back."""
    spec = spec_by_name(name)
    set_threading(spec, threading)
    res = Resource(spec, w.scratch, wc)
    cls = spec.cls
    try:
        if op == "ctor":
            data = v if isinstance(v, dict if spec.kind == "dict" else list) else (
                {"new": v} if spec.kind == "dict" else [v])
            root = res.make(data=clone(data))
            model = clone(data)
            if not same(root(), model):
                raise Violation(f"{name}: constructed with {data!r:.200}, shows {diff(root(), model)}")
            # constructor data is saved together with the first modification
            node, m = (root, model)
            do(node, m, "setitem_new" if spec.kind == "dict" else "append", 5, i)
            check(name, res, root, model, "the constructor")
            return
        model = clone(START[spec.kind])
        res.raw_write(model)
        root = res.make()
        if i % 3 == 0:
            root()
        ctx = contextlib.nullcontext()
        if mode == "obj":
            ctx = root.buffered
        elif mode == "cls":
            ctx = cls.buffer_backend()
        with ctx:
            node = root
            for p in path:
                node = node[p]
            if old:
                do(node, resolve(model, path), op, old[0], i)
                if i % 2:
                    node = root
                    for p in path:
                        node = node[p]
            do(node, resolve(model, path), op, v, i)
            if mode and not same(root(), model):
                raise Violation(f"{name}: inside the buffered context {root()!r:.300}, expected {model!r:.300}")
        check(name, res, root, model, f"{op} at {list(path)}")
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{name}: {op} at {list(path)} of {v!r:.200} raised {type(e).__name__}: {e!s:.200}",
                        traceback.format_exc())
    finally:
        set_threading(spec, True)
        if spec.buffered:
            reset_buffer(cls)
        res.dispose()


def check(name, res, root, model, what):
    fresh = res.make()
    got = fresh()
    if not same(got, model):
        raise Violation(f"{name}: after {what} a fresh object reads {diff(got, model)}")
    for path, c in containers(model):
        if len(path) > 6:
            break
        node = fresh
        for p in path:
            node = node[p]
        keys = list(c) if isinstance(c, dict) else list(range(len(c)))
        for k in keys[:3] + keys[-1:]:
            x = node[k]
            if not isinstance(c[k], (dict, list)) and not same(x, c[k]):
                raise Violation(f"{name}: after {what} item {k!r:.60} at {list(path)!r:.200} of a fresh object is {x!r:.200}, "
                                f"expected {c[k]!r:.200}")
        break
    if not same(root(), model):
        raise Violation(f"{name}: after {what} the same object reads {diff(root(), model)}")


def diff(a, b, path="$"):
    """The first difference."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(b) + [k for k in a if k not in b]:
            if k not in a or k not in b:
                return f"{path}: key {k!r:.80} only on one side"
            if not same(a[k], b[k]):
                return diff(a[k], b[k], f"{path}[{k!r:.40}]")
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} elements, expected {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return diff(x, y, f"{path}[{i}]")
    return f"{path}: {a!r:.200} ({type(a).__name__}), expected {b!r:.200} ({type(b).__name__})"


def plan(spec):
    out = []
    for path, c in containers(START[spec.kind]):
        if isinstance(c, dict):
            ops = list(DICT_OPS) + ["reset"] + (["setattr"] if spec.attr else [])
        else:
            ops = list(LIST_OPS) + ["reset"]
        out += [(op, path) for op in ops]
    out.append(("ctor", ()))
    return out


def share(w, item):
    name, what, block, n = item
    spec = spec_by_name(name)
    rng = w.rng(name, what, block)
    vals = corpus(spec, rng)
    ops = plan(spec)
    if what == "corpus":
        # every value with n operations
        jobs = [(v, None, *rng.choice(ops)) for v in vals for _ in range(n)]
    elif what == "equal":
        jobs = [(b, (a,), op, path) for op, path in ops if op != "ctor" for a, b in rng.sample(EQUALS, n)]
        jobs = [j for j in jobs if not (j[2] == "update_key" and isinstance(j[0], dict) and "" in j[0])]
    elif what == "over":
        # one value over another, and large ones over similar ones
        jobs = [(v, (rng.choice(vals),), *rng.choice(ops)) for v in rng.sample(vals, n)]
        jobs += [(*similar(rng), *rng.choice(ops)) for _ in range(n)]
        jobs = [j for j in jobs if j[2] not in ("ctor", "update_key")]
    elif what == "tiny":
        # all pairs of small values, by replacement and by merging
        tiny = tinies()
        jobs = [(b, (a,), op, path) for k, (a, b) in enumerate((a, b) for a in tiny for b in tiny) if k % 4 == block % 4
                for op, path in [rng.choice([o for o in ops if o[0] == "reset" or o[0].startswith("set")])]]
        jobs = rng.sample(jobs, min(n, len(jobs)))
    else:
        jobs = []
        for _ in range(n):
            v = mixed(rng, spec, vals)
            jobs += [(v, None, op, path) for op, path in rng.sample(ops, 8)]
    for v, old, op, path in jobs:
        i = rng.randrange(6)
        mode = rng.choice([None, "obj", "cls"]) if spec.buffered else None
        args = (name, op, path, v, old, i, mode, rng.random() < 0.8, rng.random() < 0.3)
        try:
            one(w, *args)
        except Violation as e:
            w.report(e.what, e.detail, args)
            return
        w.count("evaluations")
        w.count(f"op:{op}")
        w.sig(name, op, path, repr(v)[:200], repr(old)[:200])
    if len(w.samples) < 2:
        w.sample({"class": name, "op": op, "site": path, "value": repr(v)[:200]})


def tinies():
    """All values of at most two nodes."""
    one = [None, True, False, 0, 1, 0.0, 1.0, "", "a", {}, []]
    return one + [[x] for x in one] + [{k: x} for k in ("", "a") for x in one]


def similar(rng):
    """A large value and the same with a few changes, many of them near its end."""
    n = rng.choice([300, 1100, 2100, 5000])
    d = rng.random() < 0.5
    new = {f"k{i}": i for i in range(n)} if d else list(range(n))
    if rng.random() < 0.4:
        for i in range(0, n, 50):
            new[f"k{i}" if d else i] = [i, {"v": i}]
    old = clone(new)
    for _ in range(rng.choice([1, 3, 10])):
        i = rng.choice([rng.randrange(n), n - 1 - rng.randrange(min(n, 40)), rng.randrange(n // 2, n)])
        old[f"k{i}" if d else i] = rng.choice([None, "x", [i], {"v": i}, [], {}, i + 0.5])
    if rng.random() < 0.4:
        more = rng.choice([1, 7, 1500])
        old.update({f"m{i}": i for i in range(more)}) if d else old.extend(range(more))
    return (new, (old,)) if rng.random() < 0.7 else (old, (new,))


def mixed(rng, spec, vals):
    """A random nesting of corpus values."""
    small = [v for v in vals if not isinstance(v, (dict, list)) and len(str(v)) < 200]
    keys = [k for k in KEYS if len(k) < 50] + (DOTKEYS if spec.dots else [])

    def build(d):
        r = rng.random()
        if d and r < 0.35:
            return {rng.choice(keys): build(d - 1) for _ in range(rng.randrange(4))}
        if d and r < 0.7:
            return [build(d - 1) for _ in range(rng.randrange(4))]
        return rng.choice(small)

    return build(rng.choice([1, 2, 3, 4]))


# -- what MongoDB cannot represent ------------------------------------------
def mongo_limits(w, item):
    for name in ("MongoDBDict", "MongoDBList"):
        for key, v in (("mongo-int64", 2**64), ("mongo-nul-key", {"a\x00b": 1})):
            try:
                one(w, name, "ctor", (), v, None, 0, None, True, False)
                one(w, name, "reset", (), v, None, 0, None, True, False)
            except Violation as e:
                listed = "OverflowError" in e.what or "InvalidDocument" in e.what or "NULL byte" in e.what
                w.report(e.what, e.detail, (name, "reset", (), v, None, 0, None, True, False), key=key if listed else None)
            w.count("evaluations")


def job(w, item):
    (mongo_limits if item[0] == "limits" else share)(w, item)


def main():
    import_library()
    run = Run("C12")
    need_redis(run)
    f = 10 if run.tier == "thorough" else 2
    shares = [("limits",)]
    for spec in all_specs():
        for b in range(2 * f):
            shares += [(spec.name, "corpus", b, 1), (spec.name, "equal", b, 3), (spec.name, "equal", -b - 1, 3)]
        shares += [(spec.name, "random", b, 15) for b in range(4 * f)]
        shares += [(spec.name, "over", b, 12) for b in range(2 * f)]
        shares += [(spec.name, "tiny", b, 500 if f > 1 else 250) for b in range(4 if f > 1 else 2)]
    run_workers(run, job, shares)
    return run.finish(RULE, minimum=5000, assumptions=[
        "lone surrogates, NaN and infinities are not JSON values", "MongoDB and (without a server) Redis are in-memory doubles"])


def replay(data):
    import_library()
    run = Run("C12")
    need_redis(run)
    w = Worker(run, 0, run.scratch)
    try:
        one(w, *data)
    except Violation as v:
        print("reproduced:", v.what)
        print("VIOLATION property=C12 replay=-")
        return 1
    print("not reproduced")
    return 0


_ = (collections, json, gen_value, shape)
