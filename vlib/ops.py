"""The operation language: the same literal operation runs on a synced node and on a model."""
import ast

from .values import (
    clone, gen_key, gen_list, gen_dict, gen_scalar, gen_value, is_plain, norm, same,
)

SL = "__slice__"


def dec(a):
    """Decode a literal argument."""
    if isinstance(a, tuple) and len(a) == 4 and a[0] == SL:
        return slice(*a[1:])
    return a


class KeysObject:
    """Has keys() and item access but is not a Mapping."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


WR = "__wrap__"
WRAPS = {
    "odict": lambda v: __import__("collections").OrderedDict(v),
    "userdict": lambda v: __import__("collections").UserDict(v),
    "proxy": lambda v: __import__("types").MappingProxyType(v),
    "keysobj": KeysObject,
    "iter": iter,
    "gen": lambda v: (x for x in v),
    "map": lambda v: map(lambda x: x, v),
    "deque": lambda v: __import__("collections").deque(v),
    "tuple": tuple,
}
MAP_WRAPS = ("odict", "userdict", "proxy", "keysobj")
SEQ_WRAPS = ("iter", "gen", "map", "deque", "tuple")


def unwrap(a):
    """The plain value of a wrapped literal."""
    if isinstance(a, tuple) and len(a) == 3 and a[0] == WR:
        return a[2]
    return a


def wrap(a):
    if isinstance(a, tuple) and len(a) == 3 and a[0] == WR:
        return WRAPS[a[1]](a[2])
    return a


def plain(x):
    """Plain form of a result: synced nodes are called, views become lists."""
    from synced_collections import SyncedCollection

    if isinstance(x, SyncedCollection):
        return x()
    if isinstance(x, tuple):
        return ("tuple",) + tuple(plain(e) for e in x)
    if isinstance(x, list):
        return [plain(e) for e in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


# ---- operations ----------------------------------------------------------
# name -> (kinds, mutates, function(target, *args)); written once, run on both.
def _iadd(t, v):
    t += v
    return None


def _setitem(t, k, v):
    t[k] = v


def _delitem(t, k):
    del t[k]


def _iadditem(t, k, v):
    t[k] += v


def _get1(t, k):
    return t.get(k)


def _sorted_pairs(view):
    return [[k, v] for k, v in view]


OPS = {
    # dict mutators
    "d.setitem": ("dict", True, _setitem),
    "d.delitem": ("dict", True, _delitem),
    "d.pop": ("dict", True, lambda t, k: t.pop(k)),
    "d.pop2": ("dict", True, lambda t, k, d: t.pop(k, d)),
    "d.popitem": ("dict", True, lambda t: t.popitem()),
    "d.clear": ("dict", True, lambda t: t.clear()),
    "d.update": ("dict", True, lambda t, m: t.update(m)),
    "d.update_kw": ("dict", True, lambda t, kw: t.update(**kw)),
    "d.update_both": ("dict", True, lambda t, m, kw: t.update(m, **kw)),
    "d.update_iter": ("dict", True, lambda t, m: t.update((tuple(p) for p in m))),
    "d.update0": ("dict", True, lambda t: t.update()),
    "d.setdefault": ("dict", True, lambda t, k, v: t.setdefault(k, v)),
    "d.setdefault1": ("dict", True, lambda t, k: t.setdefault(k)),
    "d.reset": ("dict", True, lambda t, m: t.reset(m)),
    "d.setattr": ("dict", True, setattr),
    "d.delattr": ("dict", True, delattr),
    "d.iadditem": ("dict", True, _iadditem),
    # dict reads
    "d.getitem": ("dict", False, lambda t, k: t[k]),
    "d.get": ("dict", False, _get1),
    "d.get2": ("dict", False, lambda t, k, d: t.get(k, d)),
    "d.getattr": ("dict", False, getattr),
    "d.len": ("dict", False, len),
    "d.bool": ("dict", False, bool),
    "d.iter": ("dict", False, lambda t: list(t)),
    "d.contains": ("dict", False, lambda t, k: k in t),
    "d.call": ("dict", False, lambda t: t()),
    "d.eq": ("dict", False, lambda t, o: t == o),
    "d.ne": ("dict", False, lambda t, o: t != o),
    "d.req": ("dict", False, lambda t, o: o == t),
    "d.repr": ("dict", False, repr),
    "d.str": ("dict", False, str),
    "d.keys": ("dict", False, lambda t: list(t.keys())),
    "d.values": ("dict", False, lambda t: list(t.values())),
    "d.items": ("dict", False, lambda t: _sorted_pairs(t.items())),
    # list mutators
    "l.setitem": ("list", True, _setitem),
    "l.delitem": ("list", True, _delitem),
    "l.insert": ("list", True, lambda t, i, v: t.insert(i, v)),
    "l.append": ("list", True, lambda t, v: t.append(v)),
    "l.extend": ("list", True, lambda t, v: t.extend(v)),
    "l.extend_iter": ("list", True, lambda t, v: t.extend(x for x in v)),
    "l.iadd": ("list", True, _iadd),
    "l.remove": ("list", True, lambda t, v: t.remove(v)),
    "l.pop": ("list", True, lambda t: t.pop()),
    "l.pop1": ("list", True, lambda t, i: t.pop(i)),
    "l.reverse": ("list", True, lambda t: t.reverse()),
    "l.clear": ("list", True, lambda t: t.clear()),
    "l.reset": ("list", True, lambda t, v: t.reset(v)),
    "l.iadditem": ("list", True, _iadditem),
    # list reads
    "l.getitem": ("list", False, lambda t, i: t[i]),
    "l.len": ("list", False, len),
    "l.bool": ("list", False, bool),
    "l.iter": ("list", False, lambda t: list(t)),
    "l.reversed": ("list", False, lambda t: list(reversed(t))),
    "l.contains": ("list", False, lambda t, v: v in t),
    "l.index": ("list", False, lambda t, *a: t.index(*a)),
    "l.count": ("list", False, lambda t, v: t.count(v)),
    "l.call": ("list", False, lambda t: t()),
    "l.eq": ("list", False, lambda t, o: t == o),
    "l.ne": ("list", False, lambda t, o: t != o),
    "l.req": ("list", False, lambda t, o: o == t),
    "l.lt": ("list", False, lambda t, o: t < o),
    "l.le": ("list", False, lambda t, o: t <= o),
    "l.gt": ("list", False, lambda t, o: t > o),
    "l.ge": ("list", False, lambda t, o: t >= o),
    "l.repr": ("list", False, repr),
    "l.str": ("list", False, str),
}
MUTATORS = [n for n, o in OPS.items() if o[1]]
READS = [n for n, o in OPS.items() if not o[1]]

# model counterparts where the built-in has no such method or a documented deviation
MODEL = {
    "d.pop": lambda t, k: t.pop(k, None),
    "d.call": lambda t: clone(t),
    "l.call": lambda t: clone(t),
    "d.setattr": _setitem,
    "d.delattr": _delitem,
    "d.getattr": lambda t, k: t[k],
}


def _model_reset(t, data):
    if isinstance(t, dict):
        if not isinstance(data, dict):
            raise ValueError("not a mapping")
        t.clear()
        t.update(data)
    else:
        if not isinstance(data, (list, tuple, bytes)):
            raise ValueError("not a sequence")
        t[:] = list(data)


MODEL["d.reset"] = MODEL["l.reset"] = _model_reset

ATTR_ERR = {"d.getattr", "d.delattr"}
ORDERED = {"d.iter", "d.keys", "d.values", "d.items", "d.repr", "d.str", "d.popitem"}
BULK = {"d.update", "d.update_kw", "d.update_both", "d.update_iter", "d.update0", "d.reset",
        "l.reset"}


def run_op(target, name, args):
    """Run an operation on a synced node; returns ("ok", plain value) or ("err", exception)."""
    fn = OPS[name][2]
    args = [dec(a) for a in args]
    try:
        r = fn(target, *[wrap(a) for a in clone(args)])
    except RecursionError:
        raise
    except Exception as e:
        return ("err", e)
    return ("ok", r)


def run_model(target, name, args, result=None):
    """Run the operation on the model container (in place)."""
    fn = MODEL.get(name, OPS[name][2])
    args = [unwrap(a) for a in clone(list(args))]
    args = [dec(a) for a in args]
    if OPS[name][1] and name not in ("d.delitem", "d.pop", "d.pop2", "l.delitem", "l.pop1"):
        args = [a if isinstance(a, slice) else norm(a) for a in args]
    try:
        r = fn(target, *args)
        return ("ok", clone(r))
    except Exception as e:
        if name in ATTR_ERR and isinstance(e, KeyError):
            e = AttributeError(str(e))
        return ("err", e)


def _bag_equal(a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    for x in a:
        for i, y in enumerate(b):
            if same_res(x, y):
                del b[i]
                break
        else:
            return False
    return True


def same_res(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return (
            isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)
            and all(same_res(x, y) for x, y in zip(a, b))
        )
    return same(a, b)


def compare(name, got, want, ordered=True):
    """None when the results agree, otherwise a description."""
    if got[0] != want[0]:
        return f"{name}: got {fmt(got)}, built-in gives {fmt(want)}"
    if got[0] == "err":
        if not isinstance(got[1], type(want[1])):
            return f"{name}: raised {fmt(got)}, built-in raises {fmt(want)}"
        return None
    g, w = plain(got[1]), want[1]
    if isinstance(w, tuple):
        w = ("tuple",) + w
    if name in ("d.repr", "d.str", "l.repr", "l.str"):
        if ordered and g == w:
            return None
        try:
            g2, w2 = ast.literal_eval(g), ast.literal_eval(w)
        except Exception:
            return f"{name}: {g!r} is not the text of {w!r}"
        return None if same(g2, w2) else f"{name}: got {g!r}, expected {w!r}"
    if name in ORDERED and not ordered and name != "d.popitem":
        ok = _bag_equal(g, w)
    else:
        ok = same_res(g, w)
    return None if ok else f"{name}: returned {g!r}, built-in gives {w!r}"


def fmt(r):
    return f"{type(r[1]).__name__}({r[1]})" if r[0] == "err" else f"{r[1]!r}"


# ---- generation ----------------------------------------------------------
class OpGen:
    """Generates operations for a model container."""

    def __init__(self, rng, spec, depth=2, weird=0.04, mutators=None, reads=None, tuples=True):
        self.rng = rng
        self.spec = spec
        self.depth = depth
        self.weird = weird
        self.tuples = tuples
        self.mutators = mutators
        self.reads = reads
        m = [n for n in MUTATORS if (mutators is None or n in mutators)]
        r = [n for n in READS if (reads is None or n in reads)]
        if not spec.attr:
            m = [n for n in m if n not in ("d.setattr", "d.delattr")]
            r = [n for n in r if n != "d.getattr"]
        self.names = {
            (k, mut): [n for n in (m if mut else r) if OPS[n][0] == k]
            for k in ("dict", "list") for mut in (True, False)
        }

    def val(self, depth=None):
        r = self.rng
        v = gen_value(r, self.depth if depth is None else depth, self.spec.dots, self.spec.big)
        if self.tuples and r.random() < 0.03:
            v = tuple(v) if isinstance(v, list) else (b"\x00\xffz" if r.random() < 0.5 else v)
        return v

    def key(self, m):
        r = self.rng
        if m and r.random() < 0.65:
            return r.choice(list(m))
        return gen_key(r, self.spec.dots)

    def attrkey(self, m):
        r = self.rng
        pool = [k for k in list(m) + ["a", "b", "c", "d", "e", "ключ", "key with space"]
                if k not in NOT_ITEMS]
        return r.choice(pool)

    def idx(self, m):
        r = self.rng
        n = len(m)
        if n and r.random() < 0.8:
            return r.randrange(-n, n)
        return r.choice([0, -1, n, n + 3, -n - 1, 5])

    def slc(self, m):
        r = self.rng
        b = lambda: r.choice([None, 0, 1, 2, -1, -2, len(m), len(m) + 2])  # noqa: E731
        return (SL, b(), b(), r.choice([None, None, None, 1, 2, -1]))

    def near(self, m):
        """An operand close to m."""
        r = self.rng
        o = clone(m)
        c = r.random()
        if c < 0.4:
            return o
        if isinstance(o, list):
            if o and c < 0.7:
                o[r.randrange(len(o))] = self.val(1)
            elif c < 0.85:
                o = o + [self.val(1)]
            else:
                o = o[:-1]
        else:
            o[self.key(m)] = self.val(1)
        return o

    def gen(self, m, mutate, name=None):
        """(name, args) for container m."""
        r = self.rng
        kind = "dict" if isinstance(m, dict) else "list"
        if name is None:
            names = self.names[kind, mutate]
            if not names:
                return None
            name = r.choice(names)
            # keep contents alive: clear/reset are rarer
            if name in ("d.clear", "l.clear", "d.reset", "l.reset") and r.random() < 0.5:
                name = r.choice(names)
        weird = r.random() < self.weird
        a = ()
        if name in ("d.iadditem", "l.iadditem"):
            pool = [k for k in (m if kind == "dict" else range(len(m))) if isinstance(m[k], list)]
            if not pool:
                name = "d.setitem" if kind == "dict" else "l.append"
            else:
                return name, (r.choice(pool), gen_list(r, 1, self.spec.dots, self.spec.big))
        if name in ("d.setitem", "d.setdefault"):
            a = (self.key(m), self.val())
        elif name == "d.setattr":
            a = (self.attrkey(m), self.val())
        elif name in ("d.delattr", "d.getattr"):
            a = (self.attrkey(m),)
        elif name in ("d.delitem", "d.pop", "d.getitem", "d.get", "d.contains", "d.setdefault1"):
            a = (self.key(m),)
            if weird and name not in ("d.setdefault1",):
                a = (r.choice([5, None, 1.5, (1, 2), [1]]),)
        elif name in ("d.pop2", "d.get2"):
            a = (self.key(m), gen_scalar(r, self.spec.big))
        elif name == "d.update":
            a = (gen_dict(r, self.depth, self.spec.dots, self.spec.big),)
            if r.random() < 0.3:
                a = ([[k, v] for k, v in a[0].items()],)
            elif r.random() < 0.3:
                a = ((WR, r.choice(MAP_WRAPS), a[0]),)
            if weird:
                a = (r.choice([5, None, "ab", [1], [["a"]], True, 2.5]),)
        elif name == "d.update_iter":
            a = ([[k, v] for k, v in gen_dict(r, self.depth, self.spec.dots, self.spec.big).items()],)
        elif name == "d.update_kw":
            a = ({k: self.val() for k in r.sample(["a", "b", "c", "d", "other", "self"], r.choice([0, 1, 2]))},)
        elif name == "d.update_both":
            a = (gen_dict(r, self.depth, self.spec.dots, self.spec.big),
                 {k: self.val() for k in r.sample(["a", "b", "c", "other", "data"], 2)})
        elif name == "d.reset":
            a = (gen_dict(r, self.depth, self.spec.dots, self.spec.big),)
            if r.random() < 0.3:
                a = (self.near(m),)
            if weird:
                a = (r.choice([5, None, "ab", [1], []]),)
        elif name in ("d.eq", "d.ne", "d.req", "l.eq", "l.ne", "l.req"):
            a = (self.near(m),)
            if weird:
                a = (r.choice([None, 5, "x", [], {}, (1,)]),)
        elif name in ("l.lt", "l.le", "l.gt", "l.ge"):
            a = (self.near(m),)
            if weird:
                a = (r.choice([None, 5, "x", {}, (1,)]),)
        elif name == "l.setitem":
            a = (self.idx(m), self.val())
            if r.random() < 0.3:
                a = (self.slc(m), gen_list(r, 1, self.spec.dots, self.spec.big))
                if r.random() < 0.2:
                    a = (a[0], (WR, r.choice(SEQ_WRAPS), a[1]))
                if weird:
                    a = (a[0], r.choice([5, None, "ab", {"a": 1}]))
            elif weird:
                a = (r.choice(["a", None, 1.5]), self.val())
        elif name in ("l.delitem", "l.getitem"):
            a = (self.slc(m),) if r.random() < 0.3 else (self.idx(m),)
            if weird:
                a = (r.choice(["a", None, 1.5]),)
        elif name == "l.insert":
            a = (self.idx(m), self.val())
        elif name == "l.append":
            a = (self.val(),)
        elif name in ("l.extend", "l.iadd", "l.extend_iter"):
            a = (gen_list(r, 1, self.spec.dots, self.spec.big),)
            if r.random() < 0.2:
                a = ((WR, r.choice(SEQ_WRAPS), a[0]),)
            if weird and name != "l.extend_iter":
                a = (r.choice([5, None, "ab", {"a": 1}]),)
        elif name in ("l.remove", "l.contains", "l.count", "l.index"):
            a = (clone(r.choice(m)) if m and r.random() < 0.7 else gen_value(r, 1, self.spec.dots, self.spec.big),)
            if name == "l.index" and r.random() < 0.4:
                a = a + (r.choice([0, 1, -1, -2, 3]),)
                if r.random() < 0.5:
                    a = a + (r.choice([0, 1, 2, -1, 5]),)
        elif name == "l.pop1":
            a = (self.idx(m),)
        elif name == "l.reset":
            a = (gen_list(r, self.depth, self.spec.dots, self.spec.big),)
            if r.random() < 0.3:
                a = (self.near(m),)
            if weird:
                a = (r.choice([5, None, "ab", {}, True]),)
        return name, a


# keys of the pool which are attributes of the classes
NOT_ITEMS = {"_root", "keys"}


def detached(v):
    return is_plain(v)
