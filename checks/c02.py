"""C02: every read shows what the resource holds at the time of the call."""
from checks.common import *  # noqa: F403
from synced_collections import SyncedCollection
from vlib.ops import compare, fmt, plain, run_model, run_op
from vlib.resources import N_STYLES, Resource
from vlib.values import clone, containers, gen_value, kinds_along, resolve, same, shape_key

RULE = ("distinct (class, sequence of operations and outside writes, final shape) of random histories, "
        "and distinct (class, position, old value, new value, first read) transitions")

POOL = [
    None, True, False, 0, 1, 2, 0.0, 1.0, 2.5, "", "a", "1",
    {}, {"x": 1}, {"x": None}, {"x": {"y": 1}}, {"x": {"y": [1]}, "z": 0}, {"x": [1, 2]},
    [], [1], [1, 2], [None], [[1]], [{"y": 1}], [{"y": 1}, {"y": 2}], [True, 1.0],
]

# position -> content with v at that position
FRAMES = {
    "dict": [
        (("p",), lambda v: {"p": v}),
        (("p",), lambda v: {"o": {"k": [1]}, "p": v, "q": 0}),
        (("n", "p"), lambda v: {"n": {"p": v, "m": {"a": 1}}}),
        (("n", "m", "p"), lambda v: {"n": {"m": {"p": v}}}),
        (("n", 0), lambda v: {"n": [v]}),
        (("n", 1, "p"), lambda v: {"n": [{"a": 1}, {"p": v}, [2]]}),
    ],
    "list": [
        ((0,), lambda v: [v]),
        ((1,), lambda v: [{"a": 1}, v, [2]]),
        ((0, "p"), lambda v: [{"p": v, "m": []}]),
        ((0, 1), lambda v: [[0, v]]),
        ((1, "p", 0), lambda v: [1, {"p": [v]}]),
    ],
}

READS = {
    "dict": [("d.getitem", 1), ("d.get", 1), ("d.get2", 2), ("d.len", 0), ("d.bool", 0), ("d.iter", 0),
             ("d.contains", 1), ("d.call", 0), ("d.eq", 9), ("d.ne", 9), ("d.req", 9), ("d.repr", 0),
             ("d.str", 0), ("d.keys", 0), ("d.values", 0), ("d.items", 0)],
    "list": [("l.getitem", 1), ("l.len", 0), ("l.bool", 0), ("l.iter", 0), ("l.reversed", 0),
             ("l.contains", 8), ("l.index", 8), ("l.count", 8), ("l.call", 0), ("l.eq", 9), ("l.ne", 9),
             ("l.req", 9), ("l.repr", 0), ("l.str", 0), ("l.lt", 9), ("l.le", 9), ("l.gt", 9), ("l.ge", 9)],
}


def read_args(rng, kind, target, last):
    """A read operation on target (a model container); last: key leading to the changed position."""
    name, a = rng.choice(READS[kind])
    if a == 0:
        return name, ()
    if a == 8:
        return name, (clone(rng.choice(target)) if target else 0,)
    if a == 9:
        return name, (clone(target),)
    if isinstance(target, dict):
        k = last if last is not None and rng.random() < 0.8 else rng.choice(list(target) + ["missing"])
    else:
        k = last if last is not None and rng.random() < 0.8 else rng.randrange(-len(target) - 1, len(target) + 1)
    return name, (k,) if a == 1 else (k, 7)


def transition(w, spec, pos, old, new, warm, grab, seedling, depth_of_read, style=0):
    """One outside change; raises Violation."""
    rng = random.Random(seedling)
    path, frame = FRAMES[spec.kind][pos]
    res = Resource(spec, w.scratch, False)
    try:
        before, after = frame(clone(old)), frame(clone(new))
        res.raw_write(before)
        obj = res.make()
        handles = {}
        if warm:
            if not same(obj(), before):
                raise Violation(f"{spec.name}: content {obj()!r} shown for {before!r}")
        for p, _ in containers(before):
            if p and (grab == 2 or (grab == 1 and rng.random() < 0.5)):
                n = obj
                for k in p:
                    n = n[k]
                handles[p] = n
        res.raw_write(after, style)
        # the first read after the change, at one level of the path
        level = min(depth_of_read, len(path))
        rpath = path[:level]
        ks = kinds_along(after, rpath)
        if ks is None:  # the position itself now holds a scalar
            rpath = path[:-1]
            ks = kinds_along(after, rpath)
        target = resolve(after, rpath)
        last = path[len(rpath)] if len(rpath) < len(path) else None
        name, args = read_args(rng, ks[-1], target, last)
        usable = rpath in handles and kinds_along(before, rpath) == ks
        how = "handle" if usable and rng.random() < 0.7 else "nav"
        if how == "handle":
            node = handles[rpath]
        else:
            node = obj
            for k in rpath:
                node = node[k]
                if not isinstance(node, SyncedCollection):
                    raise Violation(f"{spec.name}: container at {rpath} read as {node!r}")
        got = run_op(node, name, args)
        bad = compare(name, got, run_model(clone(target), name, args), ordered=False)
        if bad:
            raise Violation(f"{spec.name}: {path} changed from {old!r} to {new!r}; first read at {rpath} "
                            f"({how}): {bad}")
        if not same(obj(), after):
            raise Violation(f"{spec.name}: {path} changed from {old!r} to {new!r}: content {obj()!r}")
        # handles whose position kept its kind are still attached
        for p in [p for p in handles if kinds_along(before, p) == kinds_along(after, p)]:
            node = handles[p]
            t = resolve(after, p)
            if not same(node(), t):
                raise Violation(f"{spec.name}: {path} changed from {old!r} to {new!r}: retained child at {p} "
                                f"shows {node()!r}")
            if isinstance(t, dict):
                node["w"] = [1]
                t["w"] = [1]
            else:
                node.append([1])
                t.append([1])
            raw = res.raw_read()
            if not same(raw, after):
                raise Violation(f"{spec.name}: {path} changed from {old!r} to {new!r}: write through the "
                                f"retained child at {p} gave {raw!r}, expected {after!r}")
        w.count("evaluations")
        w.count("transitions")
        w.sig(spec.name, pos, old, new, name, how)
    finally:
        res.dispose()


def share(w, item):
    what, name, n, block = item
    spec = spec_by_name(name)
    if what == "matrix":
        pairs = [(o, v) for o in POOL for v in POOL]
        for k in range(n):
            rng = w.rng(name, block, k, "m")
            if block == 0 and k < len(pairs):
                old, new = pairs[k]
            else:
                old, new = rng.choice(pairs)
                if rng.random() < 0.3:
                    new = gen_value(rng, 2, spec.dots, spec.big)
                if rng.random() < 0.2:
                    old = gen_value(rng, 2, spec.dots, spec.big)
            args = (rng.randrange(len(FRAMES[spec.kind])), old, new, rng.random() < 0.6, rng.randrange(3),
                    rng.random(), rng.randrange(4), rng.randrange(N_STYLES))
            try:
                transition(w, spec, *args)
            except Violation as v:
                w.report(v.what, v.detail, {"transition": (name,) + args})
                return
            except Exception as e:
                w.report(f"{spec.name}: unexpected {type(e).__name__}: {e} after an outside change of "
                         f"{old!r} to {new!r}", traceback.format_exc(), {"transition": (name,) + args})
                return
        return
    for k in range(n):
        rng = w.rng(name, block, k)
        start, ctor = start_state(rng, spec)
        cfg = dict(start=start, ctor_data=False, monitors=("reads", "backend"), n_objects=rng.choice([1, 1, 2]),
                   write_concern=rng.random() < 0.3, mixed=rng.random() < 0.2)
        threading = spec.backend != "json" or rng.random() < 0.7
        history_case(w, spec, cfg, dict(p_read=0.6, p_grab=0.2, p_drop=0.02, p_raw=0.3, p_handle=0.55, weird=0.0), 40, rng,
                     threading)
        if w.violations:
            return


def main():
    import_library()
    run = Run("C02")
    need_redis(run)
    f = 10 if run.tier == "thorough" else 3
    shares = []
    for spec in all_specs():
        n = {"json": 60, "redis": 60, "mongo": 60, "zarr": 15}[spec.backend]
        for block in range(4 * f):
            shares.append(("hist", spec.name, n, block))
        n = {"json": 1000, "redis": 1000, "mongo": 1000, "zarr": 250}[spec.backend]
        for block in range(2 * f):
            shares.append(("matrix", spec.name, n, block))
    run_workers(run, share, shares)
    return run.finish(RULE, minimum=20000, assumptions=ASSUME)


ASSUME = [
    "handles are only required to stay attached while every position on their path keeps its kind and is not "
    "reassigned through the same object",
    "MongoDB is represented by an in-memory collection that round-trips documents through BSON",
]


def replay(data):
    if "transition" in data:
        import_library()
        run = Run("C02")
        need_redis(run)
        name, *args = data["transition"]
        try:
            transition(Worker(run, 0, run.scratch), spec_by_name(name), *args)
        except Violation as v:
            print("reproduced:", v.what)
            print("VIOLATION property=C02 replay=-")
            return 1
        print("not reproduced")
        return 0
    return history_replay("C02", data)


_ = (fmt, plain, shape_key)
