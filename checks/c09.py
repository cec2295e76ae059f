"""C09: concurrent writers are linearizable."""
from vlib import sched

sched.install()

from checks.common import *  # noqa: F403,E402
from vlib import conc  # noqa: E402
from vlib.values import clone  # noqa: E402

RULE = ("distinct (program, schedule) executed to the end whose results and final content were matched with a serial execution; "
        "a schedule is the sequence of preemption points")
NAMES = [s + k for s in ("JSON", "JSONAttr", "BufferedJSON", "BufferedJSONAttr", "MemoryBufferedJSON", "MemoryBufferedJSONAttr")
         for k in ("Dict", "List")]


def program(rng, name):
    """2-3 threads of mutators on one file."""
    spec = spec_by_name(name)
    g = conc.Gen(rng, spec.attr)
    start = clone(conc.DSTART if spec.kind == "dict" else conc.LSTART)
    if rng.random() < 0.05:
        start = {} if spec.kind == "dict" else []
    objects = [0] * rng.choice([1, 1, 2, 3])
    handles = conc.handles_for(rng, [start], objects, rng.choice([1, 2, 3, 4]))
    n = rng.choice([2, 2, 2, 3])
    total = rng.choice([2, 2, 3, 4]) if n == 2 else rng.choice([3, 3, 4])
    threads = [[] for _ in range(n)]
    # sometimes every thread makes its own object
    own = rng.random() < 0.15
    if own:
        objects, handles = [], []
        threads = [[("-", "new", [0])] for _ in range(n)]
        missing = rng.random() < 0.3
    for i in range(total):
        if own:
            h, path = "slot", []
        else:
            h = rng.randrange(len(handles))
            path = handles[h][1]
        op, args = g.mutator(conc.node_at(start, path))
        if op == "d.popitem" and len(objects) != 1:
            op, args = "d.clear", []
        threads[i if i < n else rng.randrange(n)].append((h, op, args))
    return {"class": name, "start": [None if own and missing else start], "objects": objects, "handles": handles,
            "threads": threads, "ctx": None, "wc": rng.random() < 0.2}


share = conc.conc_share(program, conc.linearizable)


def main():
    import_library()
    run = Run("C09")
    run_workers(run, share, conc.conc_shares(run, NAMES, 20))
    return run.finish(RULE, minimum=1000, assumptions=[
        "threads switch at executed library lines (or instructions) and at lock operations only",
        "a serial execution of the same library is the reference"])


def replay(data):
    import_library()
    return conc.conc_replay("C09", data, conc.linearizable)
