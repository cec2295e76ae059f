"""C05: buffered operations behave as unbuffered ones; nothing is written before the outermost exit."""
from checks.bufcommon import *  # noqa: F403
from vlib.resources import buffered_specs

RULE = ("distinct (class, threading mode, sequence of operations, context entries and exits) of histories in which "
        "every result was compared with a plain model and every buffered file was fingerprinted after every step")


def share(w, item):
    name, n, block = item
    spec = spec_by_name(name)
    for k in range(n):
        rng = w.rng(name, block, k)
        specs = [spec, sibling(spec)]
        files = []
        for f in range(rng.choice([1, 1, 2, 3])):
            i = 0 if f == 0 or rng.random() < 0.6 else 1
            files.append((i, start_state(rng, specs[i])[0], 1))
        tiny = rng.random() < 0.25
        caps = [0, 1, 2, 3, 10, 40, 200] if tiny else [10**6, 10**7, 2**25]
        cfg = dict(files=files, monitors=("results", "backend", "deferred", "exit"), defer=not tiny,
                   write_concern=rng.random() < 0.3)
        kinds = ("cls", "obj")
        if rng.random() < 0.2:
            # several objects on a file, all of them in the same backend-wide contexts
            cfg["files"] = [(i, s, rng.choice([1, 2, 3])) for i, s, _ in files]
            kinds = ("cls",)
        buffer_case(w, specs, cfg,
                    dict(kinds=kinds, p_ctx=rng.choice([0.08, 0.2, 0.35]), p_enter_cap=0.5 if tiny else 0.2, caps=caps,
                         p_read=0.4, p_grab=0.12, p_drop=0.02, p_handle=0.4, weird=0.03, p_raw=0.03, max_ctx=6),
                    45, rng, rng.random() < 0.75, tag=(len(files), tiny))
        if w.violations:
            return


def main():
    import_library()
    run = Run("C05")
    f = 12 if run.tier == "thorough" else 3
    shares = [(s.name, 120, b) for b in range(6 * f) for s in buffered_specs()]
    run_workers(run, share, shares)
    return run.finish(RULE, minimum=20000, assumptions=ASSUME)


ASSUME = ["a file that never existed and an empty one count as the same content",
          "contexts are entered and left in well-nested order, also through exceptions"]


def replay(data):
    return buffer_replay("C05", data)
