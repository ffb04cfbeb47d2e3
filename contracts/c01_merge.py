"""C01: merging nested definitions."""
import copy

from dv.registry import bounded

from . import trees as T

TARGETS = ["attrdict.AttrDict.union", "attrdict.AttrDict.set_key", "attrdict.AttrDict.get_key", "attrdict.AttrDict.keys_nested"]


def _merge(b, A, B, tag, as_attr, **kw):
    from calliope.attrdict import AttrDict

    a, o = AttrDict(copy.deepcopy(A)), (AttrDict(copy.deepcopy(B)) if as_attr else copy.deepcopy(B))
    detail = lambda got=None: {"A": T.show(A), "B": T.show(B), "options": kw, "result": T.show(got) if isinstance(got, dict) else repr(got)}
    try:
        r = a.union(o, **kw)
    except KeyError as e:
        got = KeyError
    except Exception as e:  # any other error is wrong
        b.check(f"{tag}: merging succeeds or raises a key error", False, {**detail(), "error": repr(e)})
        return None, o, detail
    else:
        got = a
        b.check(f"{tag}: merged in place", r is None)
    b.check(f"{tag}: the merged-in definition is not modified", T.same(T.plain(o), B), lambda: {**detail(), "after": T.show(o)})
    return got, o, detail


@bounded("C01", targets=TARGETS, trials=1500, shards=4, budget_s=120)
def random_merges(b):
    """Random pairs of nested mappings, with and without permission to override: exact result, error, isolation."""
    A, B = T.tree(b.rng), T.tree(b.rng)
    if b.rng.random() < 0.5:  # disjoint leaves more often
        la = T.leaves(A)
        B2 = {}
        for p, v in T.leaves(B).items():
            if not any(T.relatives(p, q) for q in la) or b.rng.random() < 0.1:
                try:
                    T.write(B2, p, v)
                except (TypeError, AttributeError):
                    pass
        B = B2
    b.case((T.show(A), T.show(B)))
    for allow in (True, False):
        want = T.merged(A, B, allow)
        got, o, detail = _merge(b, A, B, "override allowed" if allow else "no override", b.rng.random() < 0.5, allow_override=allow)
        if got is None:
            continue
        if want is KeyError or got is KeyError:
            b.check("a key error exactly where a path is defined on both sides (or a section would have to replace a value)",
                    want is got, detail(got))
            continue
        b.check("B's value where B defines one, A's everywhere else", T.same(T.plain(got), want), lambda: {**detail(got), "expected": T.show(want)})
        # isolation afterwards
        before = T.plain(o)
        for p in list(T.leaves(got))[:6]:
            try:
                got.set_key(".".join(p) + ".new", 1)
            except KeyError:
                got.set_key(".".join(p), "changed")
        b.check("later changes of the result do not reach the merged-in definition", T.same(T.plain(o), before), detail(got))


@bounded("C01", targets=TARGETS, trials=1000, shards=2, budget_s=100)
def random_replacements(b):
    """The replacement marker: exactly the marked sections are replaced, other paths merge as usual."""
    A = T.tree(b.rng, none=0.1)
    B = T.tree(b.rng, none=0.1)
    marks = {}
    for _ in range(b.rng.randint(1, 2)):
        base = list(T.leaves(A)) or [("a",)]
        p = b.rng.choice(base)
        p = p[: b.rng.randint(1, len(p))] if b.rng.random() < 0.8 else tuple(b.rng.sample(T.KEYS, 2))
        if any(T.relatives(p, q) for q in marks):
            continue
        new = T.tree(b.rng, depth=2, none=0.1) if b.rng.random() < 0.8 else T.leaf(b.rng)
        marks[p] = new
    # marked sections carry nothing but the marker
    rest = {p: v for p, v in T.leaves(B).items() if not any(T.relatives(p, q) for q in marks)}
    B1 = {}
    for p, v in rest.items():
        T.write(B1, p, copy.deepcopy(v))
    want = T.merged(A, B1, True)
    if want is KeyError:
        return
    B2 = copy.deepcopy(B1)
    for p, v in marks.items():
        for i in range(1, len(p)):
            x = T.read(want, p[:i])
            if x is not T.MISSING and x is not None and not isinstance(x, dict):
                return
        T.write(B2, (*p, "_REPLACE_"), copy.deepcopy(v))
        T.write(want, p, copy.deepcopy(v))
    b.case((T.show(A), T.show(B2)))
    as_attr = b.rng.random() < 0.7
    got, o, detail = _merge(b, A, B2, "replacement", as_attr, allow_override=True, allow_replacement=True)
    if got is None:
        return
    b.check("marked sections are replaced, everything else merges", got is not KeyError and T.same(T.plain(got), want), lambda: {**detail(got), "expected": T.show(want)})
    if got is not KeyError:
        before = T.plain(o)
        for p in marks:
            try:
                got.set_key(".".join(p) + ".new", 1)
            except KeyError:
                pass
        b.check("later changes of the result do not reach the merged-in definition", T.same(T.plain(o), before), detail(got))
