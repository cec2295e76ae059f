"""C13: buffered collections stay consistent under concurrent threads."""
from vlib import sched

sched.install()

from checks.common import *  # noqa: F403,E402
from vlib import conc  # noqa: E402
from vlib.base import Violation as V  # noqa: E402
from vlib.values import clone  # noqa: E402

RULE = ("distinct (program, capacity, schedule) executed to the end inside a backend-wide context, after which errors, every file "
        "and the buffer size were compared with serial executions")
NAMES = [s + k for s in ("BufferedJSON", "BufferedJSONAttr", "MemoryBufferedJSON", "MemoryBufferedJSONAttr") for k in ("Dict", "List")]
DOPS = ["d.setitem", "d.setitem", "d.delitem", "d.update", "d.setdefault", "d.reset", "d.clear", "d.update_kw"]
LOPS = ["l.setitem", "l.delitem", "l.append", "l.append", "l.extend", "l.insert", "l.reset", "l.clear"]


conc.EXTRA["setcap"] = lambda w, t, n: type(t).set_buffer_capacity(n)


def program(rng, name):
    """2-3 threads of mutators on 1-3 files; reads only on objects of the thread's own."""
    spec = spec_by_name(name)
    g = conc.Gen(rng, False)
    nf = rng.choice([1, 1, 2, 2, 3])
    start = [clone(conc.DSTART if spec.kind == "dict" else conc.LSTART) for _ in range(nf)]
    if rng.random() < 0.3:
        i = rng.randrange(nf)
        start[i] = {"a": {"x": i}} if spec.kind == "dict" else [[1], i]
    n = rng.choice([2, 2, 2, 3])
    kind = rng.choice(["shared", "own", "mixed"])
    if kind == "shared":
        objects = list(range(nf))
    elif kind == "own":
        # each thread has its own objects, maybe for the same file
        objects = [rng.randrange(nf) for _ in range(n)]
    else:
        objects = [rng.randrange(nf) for _ in range(rng.choice([2, 3, 4]))]
    handles = conc.handles_for(rng, start, objects, rng.choice([2, 3, 4]))
    total = rng.choice([2, 3, 4]) if n == 2 else rng.choice([3, 4])
    threads = [[] for _ in range(n)]
    users = {}
    for i in range(total):
        t = i if i < n else rng.randrange(n)
        if kind == "own":
            handles.append([t, [] if rng.random() < 0.5 else list(rng.choice(conc.paths(start[objects[t]])))])
            h = len(handles) - 1
        else:
            h = rng.randrange(len(handles))
        users.setdefault(handles[h][0], set()).add(t)
        node = conc.node_at(start[objects[handles[h][0]]], handles[h][1])
        threads[t].append((h,) + g.mutator(node, DOPS if isinstance(node, dict) else LOPS))
    # reads on objects nobody else uses
    for o, ts in users.items():
        if len(ts) == 1 and rng.random() < 0.4:
            t = next(iter(ts))
            handles.append([o, []])
            node = start[objects[o]]
            threads[t].insert(rng.randrange(len(threads[t]) + 1), (len(handles) - 1,) + g.read(node))
    cap = rng.choice([None, 0, 1, 2, 3] if "Memory" in name else [None, 0, 1, 30, 70, 100, 150, 200])
    if cap is not None and rng.random() < 0.2:
        # the capacity changes meanwhile
        roots = [i for i, (o, p) in enumerate(handles) if not p]
        if roots:
            t = threads[rng.randrange(n)]
            t.insert(rng.randrange(len(t) + 1), (rng.choice(roots), "call", ["setcap", rng.choice([0, 1, 2, 60, 1000])]))
    missing = [None if rng.random() < 0.1 and all(not p for o, p in handles if objects[o] == i) else c for i, c in enumerate(start)]
    return {"class": name, "start": missing, "objects": objects, "handles": handles, "threads": threads, "ctx": "cls",
            "cap": cap, "wc": rng.random() < 0.2}


def judge(ex, world):
    """Each file on its own: only the operations applied to it."""
    prog = ex.prog
    got = ex.outcome(world)
    if got["size"] != 0:
        raise V(f"buffer size {got['size']} after leaving the context")
    if len(getattr(world.spec.cls, "_buffer", ())):
        raise V("entries left in the buffer after leaving the context")
    if not hasattr(ex, "per_file"):
        ex.per_file = {}
        for i in range(len(prog["start"])):
            ops = [(t, j) for t, j in ex.order0 if prog["objects"][prog["handles"][prog["threads"][t][j][0]][0]] == i]
            ex.per_file[i] = (ops, {})
    for i, (ops, seen) in ex.per_file.items():
        # results count only as far as errors are concerned
        want = conc.key([got["files"][i], [(o, got["results"][o][1] if got["results"][o][0] == "err" else None) for o in ops]])
        for order in ex.orders({o: world.stamps[o] for o in ops}, ops):
            if order not in seen:
                out = serial(ex, order)
                seen[order] = conc.key([out["files"][i], [(o, out["results"][o][1] if out["results"][o][0] == "err" else None)
                                                          for o in ops]])
            if seen[order] == want:
                break
        else:
            raise V(f"no serial order of its operations explains file {i}: {str(got['files'][i])[:300]} with "
                    f"{conc.fmt({o: got['results'][o] for o in ops})}",
                    "\n".join(f"serial {o}: {s[:300]}" for o, s in list(seen.items())[:4]))


def serial(ex, order):
    """The operations on one file, one at a time, without a buffer."""
    w = conc.World({**ex.prog, "ctx": None}, ex.dir)
    w.enter()
    for t, i in order:
        w.step(t, i)
    w.exit()
    out = ex.outcome(w)
    w.close()
    return out


share = conc.conc_share(program, judge)


def main():
    import_library()
    run = Run("C13")
    run_workers(run, share, conc.conc_shares(run, NAMES, 14))
    return run.finish(RULE, minimum=1000, assumptions=[
        "threads switch at executed library lines (or instructions) and at lock operations only",
        "the serial reference is the unbuffered execution (C05 compares both)"])


def replay(data):
    import_library()
    return conc.conc_replay("C13", data, judge)
