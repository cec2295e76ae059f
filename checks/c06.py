"""C06: objects on one file in a common buffered state share it; leaving it writes everything."""
from checks.bufcommon import *  # noqa: F403
from vlib.resources import buffered_specs

RULE = ("distinct (class, number of objects per file, sequence of operations with the object used, common contexts and "
        "exit orders) of histories in which every result through every object was compared with one plain model and "
        "the file with it after every common exit")


def share(w, item):
    name, n, block = item
    spec = spec_by_name(name)
    for k in range(n):
        rng = w.rng(name, block, k)
        files = [(0, start_state(rng, spec)[0], rng.choice([2, 2, 3, 4]))]
        if rng.random() < 0.3:
            files.append((0, start_state(rng, spec)[0], rng.choice([1, 2])))
        tiny = rng.random() < 0.25
        monitors = ("results", "exit")
        cfg = dict(files=files, monitors=monitors, defer=not tiny, write_concern=rng.random() < 0.3)
        kinds = rng.choice([("cls",), ("all",), ("cls", "all")])
        few = rng.random() < 0.3
        buffer_case(w, [spec], cfg,
                    dict(kinds=kinds, p_ctx=rng.choice([0.08, 0.2, 0.3]), p_enter_cap=0.7 if tiny else 0.1,
                         caps=[0, 1, 2, 5, 30, 100] if tiny else [10**6, 2**25], p_read=rng.choice([0.3, 0.6]),
                         p_grab=0.15, p_drop=0.02, p_handle=0.5, weird=0.0, max_ctx=4),
                    12 if few else 40, rng, rng.random() < 0.75, tag=(tiny, few))
        if w.violations:
            return


def main():
    import_library()
    run = Run("C06")
    f = 12 if run.tier == "thorough" else 3
    shares = [(s.name, 160, b) for b in range(6 * f) for s in buffered_specs()]
    run_workers(run, share, shares)
    return run.finish(RULE, minimum=20000, assumptions=ASSUME)


ASSUME = ["objects on one file are always in the same buffered state: one backend-wide context, or the contexts of all "
          "objects entered together and left together (in any order)"]


def replay(data):
    return buffer_replay("C06", data)
