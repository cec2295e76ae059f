"""C17: reading never writes."""
import contextlib
import os

from checks.common import *  # noqa: F403
from vlib.bufworld import reset_buffer
from vlib.ops import OpGen, run_op
from vlib.resources import Resource
from vlib.values import clone, containers, gen_root, resolve

RULE = ("distinct (class, threading mode, kind of contexts, capacity, existence of the resource, reads performed) histories in "
        "which the resource was fingerprinted after every read and every context exit")

EXTRA = {
    "next_iter": lambda n, m: next(iter(n), None),
    "for_break": lambda n, m: [x for x in n],
    "dict()": lambda n, m: dict(n) if hasattr(n, "items") else list(n),
    "unpack": lambda n, m: {**n} if hasattr(n, "items") else [*n],
    "format": lambda n, m: f"{n} {n!r}",
    "sorted": lambda n, m: sorted(map(str, n)),
    "dir": lambda n, m: dir(n),
    "hasattr": lambda n, m: (hasattr(n, "nothing_here"), getattr(n, "a", None)),
    "missing": lambda n, m: n["no such key"] if hasattr(n, "items") else n[10**6],
    "eq_self": lambda n, m: n == n,
    "ne_self": lambda n, m: n != m,
    "values_lazy": lambda n, m: (n.values(), n.items(), n.keys()) if hasattr(n, "items") else n.count(1),
    "in_values": lambda n, m: (1 in n.values(), "a" in n.keys(), ("a", 1) in n.items()) if hasattr(n, "items") else 1 in n,
    "zip": lambda n, m: list(zip(n, n)),
    "get_default": lambda n, m: n.get("no such key", {"a": [1]}) if hasattr(n, "items") else n[0:1],
    "slices": lambda n, m: n[::-1] if not hasattr(n, "items") else len(n),
    "isinstance": lambda n, m: isinstance(n, (dict, list)),
    "bool_not": lambda n, m: not n,
}


class Case:
    def __init__(self, w, d):
        self.w, self.d = w, d
        self.spec = spec_by_name(d["class"])
        self.rng = random.Random(d["seed"])
        self.reads = []
        self.gen = OpGen(self.rng, self.spec, weird=0.1)

    def setup(self):
        rng, spec = self.rng, self.spec
        self.files = []
        for i in range(self.d["files"]):
            res = Resource(spec, self.w.scratch, rng.random() < 0.3)
            r = rng.random()
            f = {"res": res, "written": False, "writable": self.d["files"] > 1 and i == self.d["files"] - 1}
            model = gen_root(rng, spec.kind, 3, spec.dots, spec.big)
            kw = {}
            if r < 0.2:
                model = {} if spec.kind == "dict" else []
            elif r < 0.3:
                kw = {"data": clone(model)}
            else:
                res.raw_write(model, rng.choice([0, 1, 2]))
            if spec.backend == "json" and os.path.exists(res.filename):
                t = rng.choice([1_500_000_000_000_000_001, 1_600_000_000_123_456_789])
                os.utime(res.filename, ns=(t, t))
            f["model"] = model
            f["print"] = res.fingerprint()
            f["objs"] = [res.make(**kw) for _ in range(1 if f["writable"] else rng.choice([1, 1, 2]))]
            self.files.append(f)
            self.check("creating an object")

    def check(self, what):
        for i, f in enumerate(self.files):
            if not f["written"]:
                now = f["res"].fingerprint()
                if now != f["print"]:
                    raise Violation(f"{self.spec.name}: {what} wrote to resource {i}, which was only read "
                                    f"({diff(f['print'], now)})")

    def read(self, f):
        rng = self.rng
        o = rng.choice(f["objs"])
        paths = [p for p, _ in containers(f["model"])]
        p = rng.choice(paths) if rng.random() < 0.7 else ()
        node = o
        m = resolve(f["model"], p)
        h = f.setdefault("handles", {})
        if (id(o), p) in h and rng.random() < 0.4:
            node = h[id(o), p]
        else:
            for q in p:
                node = node[q]
            h[id(o), p] = node
        if rng.random() < 0.3:
            name = rng.choice(sorted(EXTRA))
            try:
                EXTRA[name](node, m)
            except (TypeError, KeyError, IndexError, AttributeError):
                pass
        elif rng.random() < 0.1:
            name = "compare_synced"
            other = rng.choice(self.files)
            x = rng.choice(other["objs"])
            try:
                _ = (node == x, x != node, node in [x])
                _ = node < x
            except TypeError:
                pass
        else:
            name, args = self.gen.gen(m, False)
            run_op(node, name, args)
        self.reads.append((name, len(p)))
        return name

    def modify(self, f):
        """Another file is modified, which may flush the buffer."""
        o = self.rng.choice(f["objs"])
        o()
        f["written"] = True
        self.check("reading another resource")
        u = self.rng.randrange(10**6)
        if self.spec.kind == "dict":
            o["w"] = {"u": [u]}
            f["model"]["w"] = {"u": [u]}
        else:
            o.append({"u": u})
            f["model"].append({"u": u})
        if self.spec.backend == "redis":
            # the counter of issued commands is shared by all keys
            for g in self.files:
                g["print"] = (g["res"].fingerprint()[0], g["print"][1])

    def outside(self, f):
        """The outside changes a file that is only read here."""
        new = gen_root(self.rng, self.spec.kind, 2, self.spec.dots, self.spec.big)
        if f["res"].raw_read() is MISSING:
            return
        f["res"].raw_write(new, self.rng.randrange(12))
        f["print"] = f["res"].fingerprint()
        f["handles"] = {}
        # what a buffered object shows now is not this property's matter
        f["objs"] = [f["res"].make()]
        f["model"] = {} if self.spec.kind == "dict" else []

    def body(self, depth):
        rng, spec = self.rng, self.spec
        for _ in range(rng.choice([3, 6, 10])):
            r = rng.random()
            f = rng.choice(self.files)
            if depth < 3 and spec.buffered and r < 0.15:
                self.context(depth)
            elif r < 0.22 and f["writable"]:
                self.modify(f)
                self.check("modifying another resource")
            elif r < 0.26 and spec.buffered and depth and self.d["outside"] and not f["writable"]:
                self.outside(f)
            elif r < 0.3 and spec.buffered and self.d["caps"]:
                spec.cls.set_buffer_capacity(rng.choice(self.d["caps"]))
                self.check("set_buffer_capacity")
            else:
                name = self.read(f)
                self.check(name)

    def context(self, depth):
        rng, cls = self.rng, self.spec.cls
        kind = rng.choice(["cls", "obj", "objs"])
        with contextlib.ExitStack() as st:
            if kind == "cls":
                st.enter_context(cls.buffer_backend(*([rng.choice(self.d["caps"])] if self.d["caps"] and rng.random() < 0.5
                                                      else [])))
            elif kind == "obj":
                st.enter_context(rng.choice(rng.choice(self.files)["objs"]).buffered)
            else:
                for f in self.files:
                    for o in f["objs"]:
                        st.enter_context(o.buffered)
            self.reads.append(("enter", kind))
            self.check(f"entering a context ({kind})")
            self.body(depth + 1)
        self.check(f"leaving a context ({kind})")

    def run(self):
        set_threading(self.spec, self.d["threading"])
        cap = self.spec.cls.get_buffer_capacity() if self.spec.buffered else None
        self.files = []
        try:
            self.setup()
            if self.spec.buffered:
                for _ in range(2):
                    self.context(0)
            self.body(0)
        finally:
            set_threading(self.spec, True)
            if cap is not None:
                try:
                    self.spec.cls.set_buffer_capacity(cap)
                except Exception:
                    pass
                reset_buffer(self.spec.cls)
            for f in self.files:
                f["res"].dispose()


def diff(a, b):
    if a[0] != b[0] and isinstance(a[0], tuple) and isinstance(b[0], tuple):
        names = ("inode", "modification time", "size", "bytes")
        return "changed: " + ", ".join(n for n, x, y in zip(names, a[0], b[0]) if x != y)
    return f"before {str(a)[:200]}, now {str(b)[:200]}"


def share(w, item):
    name, block, n = item
    for k in range(n):
        rng = w.rng(name, block, k)
        caps = rng.choice([None, None, [0, 1, 2, 10, 100], [0], [1, 5, 50, 10**6]])
        d = {"class": name, "seed": rng.randrange(2**40), "files": rng.choice([1, 2, 3]), "threading": rng.random() < 0.75,
             "caps": caps, "outside": rng.random() < 0.3}
        c = Case(w, d)
        try:
            c.run()
        except Violation as v:
            w.report(v.what + f" [reads {c.reads[-6:]}]", v.detail, d)
            return
        except Exception as e:
            w.report(f"{name}: unexpected {type(e).__name__}: {e}", traceback.format_exc(), d)
            return
        w.count("histories")
        w.count("evaluations", len(c.reads))
        w.sig(name, d["threading"], d["files"], caps, c.reads)
        if len(w.samples) < 2:
            w.sample({"class": name, "files": d["files"], "capacities": caps, "reads": c.reads[:8]})


def main():
    import_library()
    run = Run("C17")
    need_redis(run)
    f = 12 if run.tier == "thorough" else 3
    shares = [(s.name, b, 160 if s.buffered else 100) for b in range(6 * f) for s in all_specs()]
    run_workers(run, share, shares)
    return run.finish(RULE, minimum=10000)


def replay(data):
    import_library()
    run = Run("C17")
    need_redis(run)
    w = Worker(run, 0, run.scratch)
    c = Case(w, data)
    try:
        c.run()
    except Violation as v:
        print("\n".join(map(repr, c.reads)))
        print("reproduced:", v.what)
        print("VIOLATION property=C17 replay=-")
        return 1
    print("not reproduced")
    return 0
