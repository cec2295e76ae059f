"""C04: all handles on one resource behave as if they operated on one shared plain structure."""
from checks.common import *  # noqa: F403

RULE = ("distinct (class, number of objects, sequence of operations with depth and kind of handle, final shape) of "
        "histories that interleave several objects and retained children")


def share(w, item):
    name, n, block = item
    spec = spec_by_name(name)
    for k in range(n):
        rng = w.rng(name, block, k)
        start, _ = start_state(rng, spec, 3)
        n_obj = rng.choice([1, 2, 2, 3, 4])
        monitors = ["results", "backend"]
        if rng.random() < 0.3:
            # extra reads refresh all handles, so not always
            monitors += ["content", "handles"]
        cfg = dict(start=start, monitors=tuple(monitors), n_objects=n_obj,
                   write_concern=rng.random() < 0.3, mixed=rng.random() < 0.25)
        threading = spec.backend != "json" or rng.random() < 0.7
        history_case(w, spec, cfg,
                     dict(p_read=0.15, p_grab=0.2, p_drop=0.02, p_raw=rng.choice([0, 0, 0.05]), p_handle=0.7, weird=0.0,
                          p_new=0.02),
                     40, rng, threading, tag=(n_obj,))
        if w.violations:
            return


def main():
    import_library()
    run = Run("C04")
    need_redis(run)
    f = 10 if run.tier == "thorough" else 3
    shares = []
    for spec in all_specs():
        for block in range(4 * f):
            shares.append((spec.name, 20 if spec.backend == "zarr" else 90, block))
    run_workers(run, share, shares)
    return run.finish(RULE, minimum=20000, assumptions=ASSUME)


ASSUME = [
    "a retained child is used only while every position on its path keeps its kind and is not reassigned through "
    "the same object",
]


def replay(data):
    return history_replay("C04", data)
