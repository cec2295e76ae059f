"""C15: the reported buffer size is exact, within the capacity and 0 outside of contexts."""
import os
import random
import shutil

from checks.bufcommon import *  # noqa: F403
from vlib.bufworld import reset_buffer
from vlib.resources import Resource, buffered_specs
from vlib.values import clone, same

RULE = ("distinct (class, files, sequence of operations, contexts and capacity changes) of histories in which size and "
        "capacity were checked after every step")


def unwritable(w, name, seed):
    """Some of the buffered files cannot be written."""
    spec = spec_by_name(name)
    cls = spec.cls
    rng = random.Random(seed)
    cap0 = cls.get_buffer_capacity()
    files = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        res = Resource(spec, w.scratch, rng.random() < 0.3)
        bad = rng.random() < 0.4
        model = {"a": 1} if spec.kind == "dict" else [1]
        if bad:
            # in a directory that does not exist
            res.filename = os.path.join(res.dir, "missing", "f.json")
            model = {} if spec.kind == "dict" else []
        else:
            res.raw_write(model)
        files.append([res, res.make(), bad, model, False])
    how = rng.choice(["cls", "cls", "cap", "obj", "cls-cap"])
    what = f"{name}, {len(files)} files, {sum(f[2] for f in files)} cannot be written, {how}"

    def write(f, v):
        if spec.kind == "dict":
            f[1]["k"] = v
            f[3]["k"] = v
        else:
            f[1].append(v)
            f[3].append(v)
        f[4] = True

    def failing(call):
        """call() raises when a file that cannot be written has to be."""
        expected = any(f[2] and f[4] for f in files)
        try:
            call()
        except Exception as e:  # noqa: BLE001
            if not expected:
                raise Violation(f"{what}: {type(e).__name__}: {e}")
        else:
            if expected:
                raise Violation(f"{what}: no exception although a file could not be written")
        for f in files:
            if f[4] and not f[2] and not same(f[0].raw_read(), f[3]):
                raise Violation(f"{what}: a file that could be written holds {f[0].raw_read()!r:.100}, expected {f[3]!r:.100}")
            if f[2]:
                f[3] = {} if spec.kind == "dict" else []
            f[4] = False

    def empty(when):
        if cls.get_current_buffer_size() != 0:
            raise Violation(f"{what}: size {cls.get_current_buffer_size()} {when}")

    try:
        for _ in range(2):
            touched = rng.sample(files, rng.randint(1, len(files)))
            if how == "obj":
                for f in touched:
                    ctx = f[1].buffered
                    ctx.__enter__()
                    write(f, rng.randrange(100))
                    others = [g for g in files if g is not f]
                    failing(lambda: ctx.__exit__(None, None, None))
                    empty("after the context")
                    for g in others:
                        g[4] = False
            else:
                ctx = cls.buffer_backend(rng.choice([10**5, 10**6])) if how == "cls-cap" else cls.buffer_backend()
                ctx.__enter__()
                for f in touched:
                    if rng.random() < 0.85:
                        for _ in range(rng.choice([1, 2])):
                            write(f, rng.randrange(100))
                    else:
                        f[1]()
                if how == "cap":
                    failing(lambda: cls.set_buffer_capacity(0))
                    empty("with a capacity of 0")
                    cls.set_buffer_capacity(cap0)
                failing(lambda: ctx.__exit__(None, None, None))
            empty("outside of contexts")
            if cls.get_buffer_capacity() != cap0:
                raise Violation(f"{what}: capacity {cls.get_buffer_capacity()} afterwards, {cap0} before")
            for f in files:
                if not f[2]:
                    if not same(f[1](), f[3]):
                        raise Violation(f"{what}: afterwards an object shows {f[1]()!r:.100}, expected {f[3]!r:.100}")
                    write(f, -1)
                    f[4] = False
                    if not same(f[0].raw_read(), f[3]):
                        raise Violation(f"{what}: afterwards a write is not in the file")
            w.count("evaluations")
            w.count("flushes with errors")
        w.sig("unwritable", name, how, [f[2] for f in files], len(touched))
    finally:
        cls.set_buffer_capacity(cap0)
        reset_buffer(cls)
        for f in files:
            shutil.rmtree(f[0].dir, ignore_errors=True)


def share(w, item):
    if item[0] == "unwritable":
        _, name, n, block = item
        for k in range(n):
            args = (name, w.rng(name, "unwritable", block, k).randrange(2**40))
            try:
                unwritable(w, *args)
            except Violation as v:
                w.report(v.what, v.detail, ("unwritable", *args))
                return
        return
    name, n, block = item
    spec = spec_by_name(name)
    for k in range(n):
        rng = w.rng(name, block, k)
        objs = rng.choice([1, 1, 1, 2])
        files = [(0, start_state(rng, spec)[0], objs) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
        kinds = ("cls", "obj") if objs == 1 else ("cls", "all")
        if spec.buffered == "memory":
            caps = [0, 1, 2, 3, 4, 1000]
        else:
            caps = [0, 1, 2, 5, 20, 50, 100, 200, 400, 10**6]
        cfg = dict(files=files, monitors=("results", "exit", "sizes", "deferred"), defer=False,
                   write_concern=rng.random() < 0.3)
        world = buffer_case(w, [spec], cfg,
                            dict(kinds=kinds, p_ctx=rng.choice([0.08, 0.2]), p_enter_cap=0.6, caps=caps,
                                 p_cap=rng.choice([0, 0.08]), p_read=0.35, p_grab=0.08, p_drop=0.02, p_handle=0.3, weird=0.02,
                                 max_ctx=5),
                            45, rng, rng.random() < 0.75, tag=(len(files), objs))
        if world is not None:
            w.count("sizes_checked", world.events)
        if w.violations:
            return


def main():
    import_library()
    run = Run("C15")
    f = 12 if run.tier == "thorough" else 3
    shares = [(s.name, 100, b) for b in range(6 * f) for s in buffered_specs()]
    shares += [("unwritable", s.name, 60, b) for b in range(f) for s in buffered_specs()]
    run_workers(run, share, shares)
    return run.finish(RULE, minimum=20000, assumptions=ASSUME)


ASSUME = ["encoded bytes are those of json.dumps with default settings",
          "for the shared-memory strategy a mutating call that does not change the content may or may not count as an "
          "unflushed modification"]


def replay(data):
    if isinstance(data, tuple):
        import_library()
        run = Run("C15")
        try:
            unwritable(Worker(run, 0, run.scratch), *data[1:])
        except Violation as v:
            print("reproduced:", v.what)
            print("VIOLATION property=C15 replay=-")
            return 1
        print("not reproduced")
        return 0
    return buffer_replay("C15", data)
