"""C02: dotted access, flat view and copies of nested mappings."""
import copy

from dv.registry import bounded

from . import trees as T


def set_ref(t, path, v):
    """Reference: the tree after set, or KeyError."""
    out = copy.deepcopy(t)
    for i in range(1, len(path)):
        x = T.read(out, path[:i])
        if x is not T.MISSING and x is not None and not isinstance(x, dict):
            return KeyError
    here = T.read(out, path)
    if isinstance(v, dict) and isinstance(here, dict):
        for k, x in v.items():  # a mapping set onto a section merges into it
            out = set_ref(out, (*path, k), x)
            if out is KeyError:
                return KeyError
        return out
    T.write(out, path, copy.deepcopy(v))
    return out


def del_ref(t, path):
    out = copy.deepcopy(t)
    T.read(out, path[:-1]).pop(path[-1])
    for i in range(len(path) - 1, 0, -1):
        if T.read(out, path[:i]) == {}:
            parent = T.read(out, path[: i - 1]) if i > 1 else out
            del parent[path[i - 1]]
        else:
            break
    return out


def paths(t, pre=()):
    for k, v in t.items():
        yield (*pre, k)
        if isinstance(v, dict):
            yield from paths(v, (*pre, k))


@bounded("C02", targets=["attrdict.AttrDict.set_key", "attrdict.AttrDict.get_key", "attrdict.AttrDict.del_key", "attrdict.AttrDict.keys_nested",
                         "attrdict.AttrDict.as_dict", "attrdict.AttrDict.as_dict_flat", "attrdict.AttrDict.copy", "attrdict.AttrDict.init_from_dict"],
         trials=1500, shards=4, budget_s=120)
def histories(b):
    """Random histories of set, get, delete and copy against plain nested dictionaries."""
    from calliope.attrdict import AttrDict

    rng = b.rng
    t = T.tree(rng)
    src = copy.deepcopy(t)
    d = AttrDict(src)
    b.check("construction gives an equal mapping", T.same(T.plain(d), t))
    b.check("construction leaves its source equal", T.same(T.plain(src), t))
    copies = []
    log = [("start", T.show(t))]
    for _ in range(6):
        op = rng.choice(["set", "set", "set", "del", "copy", "deepcopy", "rebuild", "setlong"])
        known = list(paths(t))
        if op in ("set", "setlong"):
            p = rng.choice(known) if known and rng.random() < 0.6 else tuple(rng.choice(T.KEYS) for _ in range(rng.randint(1, 4)))
            if op == "setlong":
                p = (*p, *[rng.choice(T.KEYS) for _ in range(rng.randint(1, 2))])
            v = T.tree(rng, depth=2) if rng.random() < 0.25 else T.leaf(rng)
            want = set_ref(t, p, v)
            given = AttrDict(copy.deepcopy(v)) if isinstance(v, dict) and rng.random() < 0.5 else copy.deepcopy(v)
            log.append(("set", ".".join(p), T.show(v, 100)))
            try:
                d.set_key(".".join(p), given)
            except KeyError:
                b.check("set: a key error only where a value would have to be a section", want is KeyError, {"history": log})
                b.check("set: a refused set changes nothing outside the path",
                        all(T.same(T.plain(T.read(d, q)), T.read(t, q)) for q in known if not T.relatives(q, p)), {"history": log})
                t = T.plain(d)
                continue
            except Exception as e:
                b.check("set: succeeds or raises a key error", False, {"history": log, "error": repr(e)})
                return
            if not b.check("set: refused where a value would have to be a section", want is not KeyError, {"history": log, "result": T.show(d)}):
                return
            b.check("set: exactly that path changed", T.same(T.plain(d), want), {"history": log, "result": T.show(d), "expected": T.show(want)})
            t = want
        elif op == "del" and known:
            p = rng.choice(known)
            log.append(("del", ".".join(p)))
            want = del_ref(t, p)
            try:
                d.del_key(".".join(p))
            except Exception as e:
                b.check("delete an existing path", False, {"history": log, "error": repr(e)})
                return
            b.check("delete: the path, its emptied parents, and nothing else", T.same(T.plain(d), want), {"history": log, "result": T.show(d), "expected": T.show(want)})
            t = want
        elif op in ("copy", "deepcopy"):
            log.append((op,))
            c = d.copy() if op == "copy" else copy.deepcopy(d)
            b.check("a copy is equal and of the same kind", isinstance(c, AttrDict) and T.same(T.plain(c), t), {"history": log})
            shared = set(T.mappings(c)) & set(T.mappings(d))
            b.check("a copy shares no nested mapping", not shared, {"history": log})
            copies.append((c, T.plain(c)))
            if rng.random() < 0.3:
                copies[-1] = (d, T.plain(d))
                d = c
        else:
            log.append((op,))
            kind = rng.choice(["flat", "nested", "flat2"])
            if kind == "nested":
                again = d.as_dict()
                b.check("nested view is plain", type(again) is dict and not any(isinstance(x, AttrDict) for x in T.mappings(again).values()), {"history": log})
                b.check("nested view is equal", T.same(again, t), {"history": log})
            again = AttrDict(d.as_dict(flat=kind != "nested"))
            b.check("rebuilding from a view gives an equal mapping", T.same(T.plain(again), t), {"history": log, "result": T.show(again), "expected": T.show(t)})
        # reading
        flat = {tuple(k.split(".")): v for k, v in d.as_dict_flat().items()}
        want = T.leaves(t)
        b.check("flat view: every leaf path once with its value", set(flat) == set(want) and all(T.same(T.plain(flat[p]), want[p]) for p in want), {"history": log, "flat": T.show({'.'.join(k): v for k, v in flat.items()})})
        ks = d.keys_nested()
        b.check("nested keys: every leaf path exactly once", sorted(ks) == sorted(".".join(p) for p in want), {"history": log, "keys": ks})
        for p in list(paths(t))[:8]:
            b.check("get: the value at the path", T.same(T.plain(d.get_key(".".join(p))), T.read(t, p)), {"history": log, "path": p})
        for _ in range(3):
            p = tuple(rng.choice(T.KEYS) for _ in range(rng.randint(1, 4)))
            x = T.read(t, p)
            got = d.get_key(".".join(p), "the default")
            b.check("get with a default: the value, or the default where there is none", T.same(T.plain(got), "the default" if x is T.MISSING else x), {"history": log, "path": p, "got": repr(got)})
            if x is T.MISSING:
                try:
                    d.get_key(".".join(p))
                    b.check("get: an error where there is no value", False, {"history": log, "path": p})
                except (KeyError, AttributeError):
                    pass
        b.check("reading changes nothing", T.same(T.plain(d), t), {"history": log})
        for c, was in copies:
            b.check("changing one never changes a copy", T.same(T.plain(c), was), {"history": log})
    b.case(log)
