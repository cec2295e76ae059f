"""C03: results, errors and content agree with built-in dict and list."""
import itertools
import operator

from checks.common import *  # noqa: F403
from vlib.ops import SL, compare, run_model, run_op
from vlib.resources import Resource
from vlib.values import clone, same

RULE = ("distinct (class, operation sequence, shape) of random programs; distinct (class, list, operator, "
        "operand form) comparisons; distinct (class, length, operation, index or slice) index cases")

CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt,
       ">=": operator.ge}
LISTS = [
    [], [0], [1], [2], [1, 2], [1, 2, 3], [1, 1], [2, 1], [1.0], [1.5], [True], [False, 2], [None], [None, 1],
    [1, None], ["a"], ["b"], ["a", 1], ["ab"], [[]], [[1]], [[1], 2], [[2]], [[1, 2]], [[1], [2]], [{}],
    [{"a": 1}], [{"a": 2}], [1, {"a": 1}], [1, [2, [3]]], [1, [2, [4]]], [[[]]], [""], [-1], [2**62],
]
DICTS = [
    {}, {"a": 1}, {"a": 2}, {"b": 1}, {"a": 1.0}, {"a": True}, {"a": None}, {"a": 1, "b": 2},
    {"b": 2, "a": 1}, {"a": {}}, {"a": []}, {"a": {"b": 1}}, {"a": {"b": 2}}, {"a": [1, {"b": 1}]},
    {"a": [1, {"b": 2}]}, {"": 0},
]
OTHERS = [None, 5, "x", (), (1,), (1, 2), {1}, 1.5, object()]


class MyList(list):
    pass


class MyDict(dict):
    pass


def outcome(f, *a):
    try:
        return ("ok", f(*a))
    except Exception as e:
        return ("err", e)


def describe(r):
    return f"{type(r[1]).__name__}({r[1]})" if r[0] == "err" else repr(r[1])


def comparisons(w, spec, n, block):
    pool = LISTS if spec.kind == "list" else DICTS
    specs = [s for s in all_specs() if s.kind == spec.kind and s.backend != "zarr"]
    res = Resource(spec, w.scratch)
    res2 = Resource(spec, w.scratch)
    holder_spec = spec_by_name(spec.name.replace("List", "Dict") if spec.kind == "list" else spec.name)
    hold = Resource(holder_spec, w.scratch)
    a = res.make()
    b = res2.make()
    h = hold.make()
    others = {}
    for k in range(n):
        rng = w.rng(spec.name, block, k, "cmp")
        x, y = rng.choice(pool), rng.choice(pool)
        if rng.random() < 0.2:
            y = x
        sym = rng.choice(list(CMP))
        form = rng.choice(["plain", "plain", "rplain", "same", "other", "child", "rchild", "sub", "alien", "self"])
        # Both operands change behind the objects' backs: the comparison must load them.
        res.raw_write(x)
        if form in ("plain", "sub", "rplain"):
            other = clone(y)
            if form == "sub":
                other = (MyList if spec.kind == "list" else MyDict)(other)
            args = (other, a) if form == "rplain" else (a, other)
            want = (y, x) if form == "rplain" else (x, y)
        elif form == "same":
            res2.raw_write(y)
            args, want = (a, b), (x, y)
        elif form == "self":
            args, want = (a, a), (x, x)
        elif form == "other":
            s2 = rng.choice(specs)
            if s2.name not in others:
                r2 = Resource(s2, w.scratch)
                others[s2.name] = (r2, r2.make())
            r2, c = others[s2.name]
            r2.raw_write(y)
            args, want = (a, c), (x, y)
        elif form in ("child", "rchild"):
            hold.raw_write({"n": {"c": clone(y)}})
            c = h["n"]["c"]
            args, want = ((a, c), (x, y)) if form == "child" else ((c, a), (y, x))
        else:
            y = rng.choice(OTHERS)
            args, want = (a, y), (x, y)
        got, exp = outcome(CMP[sym], *args), outcome(CMP[sym], *want)
        ok = got[0] == exp[0] and (
            isinstance(got[1], type(exp[1])) if got[0] == "err" else (type(got[1]) is bool and got[1] is exp[1]))
        if not ok:
            w.report(f"{spec.name}: {want[0]!r} {sym} {want[1]!r} (operand form {form}): {describe(got)}, "
                     f"built-in gives {describe(exp)}", None, {"cmp": (spec.name, n, block)})
            return
        w.count("evaluations")
        w.count("comparisons")
        w.sig(spec.name, x, y if form != "alien" else type(y).__name__, sym, form)
    for r in [res, res2, hold] + [r for r, _ in others.values()]:
        r.dispose()


BOUNDS = [None, -3, -2, -1, 0, 1, 2, 3, 5]
IDX = list(range(-6, 7))


def index_cases():
    """(operation, args) with every index and slice form."""
    for i in IDX:
        for name in ("l.getitem", "l.delitem", "l.pop1"):
            yield name, (i,)
        for name in ("l.setitem", "l.insert"):
            yield name, (i, {"new": [i]})
    for i, j in itertools.product(IDX, IDX):
        yield "l.index", (1, i, j)
    for i in IDX:
        yield "l.index", (2, i)
    for a, b, c in itertools.product(BOUNDS, BOUNDS, [None, 1, 2, -1, -2, 0]):
        sl = (SL, a, b, c)
        yield "l.getitem", (sl,)
        yield "l.delitem", (sl,)
        for v in ([], [7], [[7], {"b": 8}], [1, 2, 3]):
            yield "l.setitem", (sl, v)
    for bad in ("a", None, 1.5, [0], {"a": 1}):
        for name in ("l.getitem", "l.delitem", "l.pop1"):
            yield name, (bad,)
        for name in ("l.setitem", "l.insert"):
            yield name, (bad, 5)
    for flag in (True, False):
        for name in ("l.getitem", "l.delitem", "l.pop1"):
            yield name, (flag,)
        for name in ("l.setitem", "l.insert"):
            yield name, (flag, 5)


def indices(w, spec, n, block):
    cases = list(index_cases())
    rng = w.rng(spec.name, block, "idx")
    rng.shuffle(cases)
    base = [[], [1], [1, [2]], [0, 1, 2], [1, {"k": 1}, 1, [3]], [5, 4, 3, 2, 1]]
    root = spec.kind == "list"
    res = Resource(spec, w.scratch)
    obj = res.make()
    for k in range(min(n, len(cases))):
        name, args = cases[k]
        content = clone(rng.choice(base))
        full = content if root else {"o": 1, "l": [0, content]}
        model = clone(full)
        target = model if root else model["l"][1]
        res.raw_write(full)
        node = obj if root else obj["l"][1]
        got = run_op(node, name, args)
        want = run_model(target, name, args)
        bad = compare(name, got, want)
        where = {"idx": (spec.name, n, block)}
        if bad:
            w.report(f"{spec.name}: on {content!r}: {bad} (arguments {args!r})", None, where)
            return
        raw, mem = res.raw_read(), obj()
        if not same(raw, model) or not same(mem, model):
            w.report(f"{spec.name}: {name}{args!r} on {content!r}"
                     f"{' raised and' if want[0] == 'err' else ''} left {mem!r} in memory and {raw!r} in the "
                     f"resource, built-in gives {model!r}", None, where)
            return
        w.count("evaluations")
        w.count("index_cases")
        w.sig(spec.name, len(content), name, args)
    res.dispose()


def share(w, item):
    what, name, n, block = item
    spec = spec_by_name(name)
    if what == "cmp":
        return comparisons(w, spec, n, block)
    if what == "idx":
        return indices(w, spec, n, block)
    for k in range(n):
        rng = w.rng(name, block, k)
        start, ctor = start_state(rng, spec)
        cfg = dict(start=start, ctor_data=ctor, monitors=("results", "unchanged_on_error", "content"),
                   write_concern=rng.random() < 0.3)
        threading = spec.backend != "json" or rng.random() < 0.7
        history_case(w, spec, cfg, dict(p_read=0.45, p_grab=0.1, weird=0.1), 35, rng, threading)
        if w.violations:
            return


def main():
    import_library()
    run = Run("C03")
    need_redis(run)
    f = 10 if run.tier == "thorough" else 3
    shares = []
    for spec in all_specs():
        z = spec.backend == "zarr"
        for block in range(4 * f):
            shares.append(("hist", spec.name, 15 if z else 65, block))
        for block in range(f):
            shares.append(("cmp", spec.name, 300 if z else 1500, block))
            shares.append(("idx", spec.name, (200 if z else 1200) * (2 if f > 1 else 1), block))
    run_workers(run, share, shares)
    return run.finish(RULE, minimum=20000, assumptions=ASSUME)


ASSUME = [
    "documented deviations follow the property text: pop of a missing key returns None, order after bulk updates "
    "is unspecified, tuples and bytes are stored as lists",
    "the raised exception must be an instance of the class the built-in raises",
]


def replay(data):
    for what in ("cmp", "idx"):
        if what in data:
            import_library()
            run = Run("C03")
            need_redis(run)
            w = Worker(run, 0, run.scratch)
            share(w, (what,) + tuple(data[what]))
            for v in w.violations:
                print("reproduced:", v["what"])
                print("VIOLATION property=C03 replay=-")
                return 1
            print("not reproduced")
            return 0
    return history_replay("C03", data)
