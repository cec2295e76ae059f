"""Helpers for checks built on sequential histories."""
import random
import traceback

from vlib.base import Run, Violation, Worker, import_library, run_workers, shrink
from vlib.resources import all_specs, need_redis, spec_by_name
from vlib.values import MISSING, gen_root
from vlib.world import StepGen, run_history, signature


def set_threading(spec, on):
    """Toggle threading support of the JSON classes (a global class setting)."""
    if spec.backend == "json":
        for s in all_specs(redis=False, mongo=False, zarr=False):
            (s.cls.enable_multithreading if on else s.cls.disable_multithreading)()


def start_state(rng, spec, depth=2):
    """(start content, given through the constructor)."""
    r = rng.random()
    if r < 0.1:
        return MISSING, False
    return gen_root(rng, spec.kind, depth, spec.dots, spec.big), r < 0.17


def history_case(w, spec, cfg, gen_kw, n_steps, rng, threading=True, hook=None, tag=()):
    """Generate and run one history; report a shrunk violation."""
    set_threading(spec, threading)
    try:
        gen = StepGen(rng, spec, **gen_kw)
        world, done = run_history(w, spec, w.scratch, cfg, gen=gen, n_steps=n_steps, hook=hook)
        w.count("histories")
        w.count("evaluations", world.events)
        w.count(f"ops:{spec.name}", world.events)
        w.sig(spec.name, threading, signature(world, done), *tag)
        if len(w.samples) < 2:
            w.sample({"class": spec.name, "steps": [repr(s)[:160] for s in done[:4]]})
        return world
    except Violation as v:
        steps = v.steps

        def fails(c):
            try:
                run_history(w, spec, w.scratch, cfg, steps=c, hook=hook)
                return False
            except Violation as v2:
                fails.last = v2
                return True

        fails.last = v
        small = shrink(steps, fails, 6.0)
        v = fails.last
        w.report(
            f"{spec.name}: {v.what}", v.detail,
            {"class": spec.name, "threading": threading, "cfg": repr_cfg(cfg), "steps": small},
        )
    finally:
        set_threading(spec, True)


def repr_cfg(cfg):
    c = dict(cfg)
    if c.get("start") is MISSING:
        c["start"] = "<missing>"
    c["monitors"] = sorted(c.get("monitors", ()))
    return c


def history_replay(prop, data, hook=None):
    import_library()
    run = Run(prop)
    need_redis(run)
    w = Worker(run, 0, run.scratch)
    spec = spec_by_name(data["class"])
    cfg = dict(data["cfg"])
    if cfg.get("start") == "<missing>":
        cfg["start"] = MISSING
    set_threading(spec, data.get("threading", True))
    for s in data["steps"]:
        print(s)
    try:
        run_history(w, spec, run.scratch, cfg, steps=data["steps"], hook=hook)
    except Violation as v:
        print("reproduced:", v.what)
        print(f"VIOLATION property={prop} replay=-")
        return 1
    print("not reproduced")
    return 0


__all__ = [n for n in dir() if not n.startswith("_")]
_ = (all_specs, run_workers)
