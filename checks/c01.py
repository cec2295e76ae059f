"""C01: after every mutating call the resource, read without the library, equals the model."""
from checks.common import *  # noqa: F403

RULE = ("distinct (class, threading mode, sequence of executed operations with depth and handle "
        "kind, final content shape) of histories in which the resource was read and compared "
        "after every mutating call")


def share(w, item):
    name, n, block, steps = item
    spec = spec_by_name(name)
    for k in range(n):
        rng = w.rng(name, block, k)
        start, ctor = start_state(rng, spec)
        cfg = dict(start=start, ctor_data=ctor, monitors=("backend", "content"),
                   write_concern=rng.random() < 0.3)
        threading = spec.backend != "json" or rng.random() < 0.7
        raw = 0.15 if rng.random() < 0.3 else 0.0
        history_case(w, spec, cfg, dict(p_read=0.12, p_grab=0.12, p_drop=0.02, weird=0.0, p_raw=raw), steps, rng, threading)
        if w.violations:
            return


def main():
    import_library()
    run = Run("C01")
    need_redis(run)
    big = run.tier == "thorough"
    shares = []
    for spec in all_specs():
        n = {"json": 90, "redis": 90, "mongo": 90, "zarr": 25}[spec.backend]
        for block in range(4 * (12 if big else 3)):
            shares.append((spec.name, n, block, 30))
    run_workers(run, share, shares)
    return run.finish(RULE, minimum=20000, assumptions=ASSUME)


ASSUME = [
    "MongoDB is represented by an in-memory collection that round-trips documents through BSON; "
    "integers beyond 64 bits are not used there",
]


def replay(data):
    return history_replay("C01", data)
