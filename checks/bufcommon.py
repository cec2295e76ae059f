"""Helpers for checks built on buffered histories."""
from checks.common import *  # noqa: F403
from checks.common import MISSING, Run, Violation, Worker, import_library, set_threading, shrink, spec_by_name
from vlib.bufworld import BufferGen, buffer_signature, run_buffer_history


def buffer_case(w, specs, cfg, gen_kw, n_steps, rng, threading=True, tag=()):
    set_threading(specs[0], threading)
    try:
        gen = BufferGen(rng, specs, **gen_kw)
        world, done = run_buffer_history(specs, w.scratch, cfg, gen=gen, n_steps=n_steps)
        w.count("histories")
        w.count("evaluations", world.events)
        w.count("contexts", sum(s[0] == "enter" for s in done))
        w.count(f"steps:{specs[0].name}", world.events)
        w.sig(specs[0].name, threading, buffer_signature(world, done), *tag)
        if len(w.samples) < 2:
            w.sample({"class": specs[0].name, "steps": [repr(s)[:140] for s in done[:5]]})
        return world
    except Violation as v:
        steps = v.steps

        def fails(c):
            try:
                run_buffer_history(specs, w.scratch, cfg, steps=c)
                return False
            except Violation as v2:
                fails.last = v2
                return True

        fails.last = v
        small = shrink(steps, fails, 6.0)
        v = fails.last
        c = dict(cfg)
        c["files"] = [(i, "<missing>" if s is MISSING else s, k) for i, s, k in c["files"]]
        w.report(f"{specs[0].name}: {v.what}", v.detail,
                 {"classes": [s.name for s in specs], "threading": threading, "cfg": c, "steps": small})
    finally:
        set_threading(specs[0], True)


def buffer_replay(prop, data):
    import_library()
    run = Run(prop)
    Worker(run, 0, run.scratch)
    specs = [spec_by_name(n) for n in data["classes"]]
    cfg = dict(data["cfg"])
    cfg["files"] = [(i, MISSING if s == "<missing>" else s, k) for i, s, k in cfg["files"]]
    set_threading(specs[0], data.get("threading", True))
    for s in data["steps"]:
        print(s)
    try:
        run_buffer_history(specs, run.scratch, cfg, steps=data["steps"])
    except Violation as v:
        print("reproduced:", v.what)
        print(f"VIOLATION property={prop} replay=-")
        return 1
    print("not reproduced")
    return 0


def sibling(spec):
    """The class of the other kind in the same family."""
    a, b = ("Dict", "List") if spec.kind == "dict" else ("List", "Dict")
    return spec_by_name(spec.name.replace(a, b))


__all__ = [n for n in dir() if not n.startswith("_")]
