"""C14: readers next to writers."""
from vlib import sched

sched.install()

from checks.common import *  # noqa: F403,E402
from vlib import conc  # noqa: E402
from vlib.base import Violation as V  # noqa: E402
from vlib.values import clone  # noqa: E402

RULE = ("distinct (program, context, schedule) executed to the end in which every read and the final content were matched with a "
        "serial execution that respects real time")
NAMES = [s + k for s in ("JSON", "JSONAttr", "BufferedJSON", "BufferedJSONAttr", "MemoryBufferedJSON", "MemoryBufferedJSONAttr")
         for k in ("Dict", "List")]


def program(rng, name):
    """1-2 readers and 1-2 writers on one file."""
    spec = spec_by_name(name)
    g = conc.Gen(rng, spec.attr)
    start = clone(conc.DSTART if spec.kind == "dict" else conc.LSTART)
    objects = [0] * rng.choice([1, 1, 2])
    handles = conc.handles_for(rng, [start], objects, rng.choice([1, 2, 3]))
    readers, writers = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1)])
    threads = []
    for r in range(readers + writers):
        ops = []
        for _ in range(rng.choice([1, 1, 2]) if readers + writers == 2 else 1):
            h = rng.randrange(len(handles))
            node = conc.node_at(start, handles[h][1])
            if r < readers:
                subs = [k for k, v in (node.items() if isinstance(node, dict) else enumerate(node)) if isinstance(v, (dict, list))]
                if subs and rng.random() < 0.35:
                    # navigation, then a read of the child
                    k = rng.choice(subs)
                    ops.append((h, "nav", [k]))
                    ops.append(("slot",) + g.read(node[k]))
                else:
                    ops.append((h,) + g.read(node))
            else:
                op, args = g.mutator(node)
                if op == "d.popitem" and len(objects) > 1:
                    op, args = "d.clear", []
                ops.append((h, op, args))
        threads.append(ops)
    ctx = rng.choice([None, "obj", "cls", "cls"]) if spec.buffered else None
    return {"class": name, "start": [start], "objects": objects, "handles": handles, "threads": threads, "ctx": ctx,
            "cap": rng.choice([None, None, 0, 1, 60]) if ctx == "cls" else None, "wc": rng.random() < 0.2}


def judge(ex, world):
    conc.linearizable(ex, world)
    if world.size() != 0:
        raise V(f"buffer size {world.size()} after leaving the context")


share = conc.conc_share(program, judge)


def main():
    import_library()
    run = Run("C14")
    run_workers(run, share, conc.conc_shares(run, NAMES, 10))
    return run.finish(RULE, minimum=1000, assumptions=[
        "threads switch at executed library lines (or instructions) and at lock operations only",
        "a node returned by a read is a reference; what it holds is another read"])


def replay(data):
    import_library()
    return conc.conc_replay("C14", data, judge)
