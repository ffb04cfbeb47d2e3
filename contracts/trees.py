"""Random nested mappings and their plain-dictionary reading (independent of AttrDict)."""
import copy

KEYS = ["a", "b", "c", "dd", "e_f"]


class Leaf:
    pass


def leaf(rng, none=0.2):
    if rng.random() < none:
        return None
    return rng.choice([0, 1, 2, 5, 1.5, "x", "yy", "", True, False, [1, 2], ["p", "q"], [], float("inf"), [{"k": 1, "n": {"m": 2}}, 3]])


def tree(rng, depth=3, keys=KEYS, none=0.2, empty=0.15):
    out = {}
    for k in rng.sample(keys, rng.randint(0 if rng.random() < empty else 1, min(3, len(keys)))):
        if depth > 1 and rng.random() < 0.5:
            out[k] = tree(rng, depth - 1, keys, none, empty)
        else:
            out[k] = copy.deepcopy(leaf(rng, none))
    return out


def leaves(t, pre=()):
    """{path: value}; an empty mapping below the root counts as a leaf."""
    out = {}
    for k, v in t.items():
        if isinstance(v, dict) and v:
            out.update(leaves(v, (*pre, k)))
        else:
            out[(*pre, k)] = v
    return out


MISSING = object()


def read(t, path):
    for k in path:
        if not isinstance(t, dict) or k not in t:
            return MISSING
        t = t[k]
    return t


def write(t, path, v):
    """Plain assignment at a path, creating missing or null parents."""
    for k in path[:-1]:
        if t.get(k) is None:
            t[k] = {}
        t = t[k]
    t[path[-1]] = v


def plain(t):
    if isinstance(t, dict):
        return {k: plain(v) for k, v in t.items()}
    if isinstance(t, list):
        return [plain(x) for x in t]
    return t


def same(a, b):
    """Equal including the types of scalars and null-ness (True is not 1)."""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and (a == b or a != a and b != b)


def mappings(t, out=None):
    """Identities of all nested mappings."""
    out = {} if out is None else out
    if isinstance(t, dict):
        out[id(t)] = t
        for v in t.values():
            mappings(v, out)
    elif isinstance(t, list):
        for v in t:
            mappings(v, out)
    return out


def relatives(a, b):
    return a[: len(b)] == b or b[: len(a)] == a


def merged(A, B, allow_override):
    """What merging B into A has to give: a tree, or KeyError."""
    out = copy.deepcopy(plain(A))
    if not allow_override:
        # a path with a value on both sides
        for p, v in leaves(B).items():
            here = read(A, p)
            if here is MISSING or v is None and isinstance(here, dict) and here:
                continue
            if isinstance(here, dict) and here and isinstance(v, dict):
                continue  # an empty section merged into a section
            return KeyError
    for p, v in leaves(B).items():
        here = read(out, p)
        if v is None and isinstance(here, dict):
            continue
        if isinstance(v, dict) and isinstance(here, dict):
            continue
        for i in range(1, len(p)):
            x = read(out, p[:i])
            if x is not MISSING and x is not None and not isinstance(x, dict):
                return KeyError  # a value where a section is needed
        write(out, p, copy.deepcopy(plain(v)))
    return out


def show(t, n=400):
    return repr(plain(t))[:n]
