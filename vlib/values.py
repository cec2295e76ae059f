"""JSON values: generation, strict comparison, walking."""
import copy

MISSING = type("MISSING", (), {"__repr__": lambda self: "<missing>"})()

SCALARS = [
    None, True, False, 0, 1, -1, 2, 0.0, 1.0, -1.5, 1e300, 2**40, "", "a", "b",
    "é☃😀", 'q"\\/\n\t ', "1", "true", "null",
]
BIG = [2**63, -(2**70), 10**40]
KEYS = ["a", "b", "c", "d", "e", "", "key with space", "ключ", "0", "_root", "keys", "A"]
DOT_KEYS = ["x.y", "."]


def jtype(v):
    """JSON type of a plain value, or None when it is not plain JSON data."""
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "str"
    if type(v) is dict:
        return "dict"
    if type(v) is list:
        return "list"
    return None


def same(a, b):
    """Equal and of the same JSON type at every position (key order ignored)."""
    ta = jtype(a)
    if ta is None or ta != jtype(b):
        return False
    if ta == "dict":
        if len(a) != len(b):
            return False
        for k, v in a.items():
            if k not in b or not same(v, b[k]):
                return False
        return True
    if ta == "list":
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def is_plain(v):
    """Plain built-in JSON data all the way down (exact container types)."""
    t = jtype(v)
    if t is None:
        return False
    if t == "dict":
        return all(isinstance(k, str) and is_plain(x) for k, x in v.items())
    if t == "list":
        return all(is_plain(x) for x in v)
    return True


def size(v):
    if isinstance(v, dict):
        return 1 + sum(size(x) for x in v.values())
    if isinstance(v, list):
        return 1 + sum(size(x) for x in v)
    return 1


def shape(v, depth=2):
    """A coarse description used for coverage signatures."""
    t = jtype(v)
    if t == "dict":
        return ("d", tuple(sorted((shape(x, depth - 1) for x in v.values()), key=repr)[:4])) if depth else "d"
    if t == "list":
        return ("l", tuple(shape(x, depth - 1) for x in v[:4])) if depth else "l"
    return t or "?"


shape_key = lambda v: repr(shape(v))  # noqa: E731


def gen_scalar(rng, big=True):
    r = rng.random()
    if r < 0.08 and big:
        return rng.choice(BIG)
    if r < 0.25:
        return rng.randrange(-5, 100)
    return rng.choice(SCALARS)


def gen_key(rng, dots=False):
    if dots and rng.random() < 0.06:
        return rng.choice(DOT_KEYS)
    if rng.random() < 0.8:
        return rng.choice(KEYS[:5])
    return rng.choice(KEYS)


def gen_value(rng, depth=2, dots=False, big=True, p_container=0.5):
    if depth > 0 and rng.random() < p_container:
        n = rng.choice([0, 1, 1, 2, 2, 3])
        if rng.random() < 0.5:
            return {
                gen_key(rng, dots): gen_value(rng, depth - 1, dots, big, p_container)
                for _ in range(n)
            }
        return [gen_value(rng, depth - 1, dots, big, p_container) for _ in range(n)]
    return gen_scalar(rng, big)


def gen_dict(rng, depth=2, dots=False, big=True, n=None):
    n = rng.choice([0, 1, 2, 3, 4]) if n is None else n
    return {gen_key(rng, dots): gen_value(rng, depth, dots, big) for _ in range(n)}


def gen_list(rng, depth=2, dots=False, big=True, n=None):
    n = rng.choice([0, 1, 2, 3, 4]) if n is None else n
    return [gen_value(rng, depth, dots, big) for _ in range(n)]


def gen_pad(rng):
    """Makes a document long without giving it many positions."""
    n = rng.choice([300, 1100, 5000, 5000, 9000, 70000])
    c = rng.choice(["x", "ab", "é", "\n", '"', "😀"])
    s = (c * n)[:n]
    if rng.random() < 0.25:
        return [s[i:i + n // 8] for i in range(0, n, n // 8)]
    return s


def gen_root(rng, kind, depth=2, dots=False, big=True):
    root = (gen_dict if kind == "dict" else gen_list)(rng, depth, dots, big)
    if rng.random() < 0.1:
        # a long document, with small values before or after the long one
        pad = gen_pad(rng)
        if kind == "dict":
            root = {"pad": pad, **root} if rng.random() < 0.7 else {**root, "pad": pad}
        else:
            root.insert(0 if rng.random() < 0.7 else len(root), pad)
    return root


def containers(v, path=()):
    """Yield (path, container) for every container inside v, v included."""
    if isinstance(v, dict):
        yield path, v
        for k, x in v.items():
            yield from containers(x, path + (k,))
    elif isinstance(v, list):
        yield path, v
        for i, x in enumerate(v):
            yield from containers(x, path + (i,))


def resolve(v, path):
    for p in path:
        v = v[p]
    return v


def kinds_along(v, path):
    """Container kinds along path, or None when the path does not resolve to one."""
    out = []
    for p in path:
        if isinstance(v, dict):
            out.append("dict")
            if p not in v:
                return None
        elif isinstance(v, list):
            out.append("list")
            if not isinstance(p, int) or not 0 <= p < len(v):
                return None
        else:
            return None
        v = v[p]
    if isinstance(v, dict):
        out.append("dict")
    elif isinstance(v, list):
        out.append("list")
    else:
        return None
    return out


def norm(v):
    """What storing v yields: tuples and bytes become lists."""
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    return v


clone = copy.deepcopy
