"""C03: template inheritance."""
import copy

from dv.registry import bounded

from . import trees as T

NAMES = ["T1", "T2", "T3", "T4", "T5"]


class Circular(Exception):
    pass


class Clash(Exception):
    pass


def resolve(section, templates, stack=()):
    """Own values over those of the named template, everywhere."""
    if not isinstance(section, dict):
        return copy.deepcopy(section)
    own = {k: resolve(v, templates, stack) for k, v in section.items() if k != "template"}
    if "template" not in section:
        return own
    n = section["template"]
    if n in stack:
        raise Circular
    base = resolve(templates[n], templates, (*stack, n))
    out = T.merged(base, own, True)
    if out is KeyError:
        raise Clash
    return out


def refer(rng, t, names, p, depth=0):
    """Add template references to sections of t."""
    if rng.random() < p:
        items = list(t.items())
        t.clear()
        at = rng.randint(0, len(items))
        for i, (k, v) in enumerate([*items[:at], ("template", rng.choice(names)), *items[at:]]):
            t[k] = v
    for v in t.values():
        if isinstance(v, dict):
            refer(rng, v, names, p * 0.6, depth + 1)


def leftovers(t):
    return [p for p in T.leaves(t) if "template" in p or "templates" in p]


@bounded("C03", targets=["preprocess.model_definition.TemplateSolver._resolve", "preprocess.model_definition.TemplateSolver._resolve_template",
                         "preprocess.model_definition.TemplateSolver._resolve_data"], trials=1500, shards=4, budget_s=120)
def random_templates(b):
    """Random template graphs (chains, diamonds, cycles, nested references, any declaration order) and definitions."""
    from calliope import exceptions
    from calliope.attrdict import AttrDict
    from calliope.preprocess.model_definition import TemplateSolver

    rng = b.rng
    names = rng.sample(NAMES, rng.randint(1, 5))
    depth = rng.choice([1, 1, 2, 3])
    templates = {}
    acyclic = rng.random() < 0.75
    for i, n in enumerate(names):
        t = T.tree(rng, depth, none=0.1)
        could = names[:i] if acyclic else names
        if could:
            refer(rng, t, could, 0.7)
        templates[n] = t
    order = list(templates)
    rng.shuffle(order)
    templates = {k: templates[k] for k in order}
    data = T.tree(rng, 3, none=0.1)
    refer(rng, data, names, 0.6)
    data.pop("template", None)
    data = {"techs": data, "nodes": T.tree(rng, 2), **({"templates": templates} if True else {})}
    if rng.random() < 0.3:
        data = dict(reversed(list(data.items())))
    b.case((T.show(templates), T.show(data)))
    detail = {"definition": T.show(data, 900)}
    want = err = None
    try:
        for n in templates:
            resolve(templates[n], templates, (n,))
    except Circular:
        err = "circular"
    except Clash:
        err = "clash"
    if err is None:
        try:
            want = {k: resolve(v, templates) for k, v in data.items() if k != "templates"}
        except Circular:
            err = "circular"
        except Clash:
            err = "clash"
    given = AttrDict(copy.deepcopy(data))
    try:
        got = TemplateSolver(given).resolved_data
    except exceptions.ModelError as e:
        b.check("a model error only for circular references", err is not None, {**detail, "error": str(e)})
        return
    except RecursionError as e:
        b.check("no endless recursion", False, detail)
        return
    except KeyError as e:
        b.check("a key error only where a section would have to replace a value", err is not None, {**detail, "error": repr(e)})
        return
    if err == "circular":
        b.check("circular templates raise a model error", False, {**detail, "result": T.show(got)})
    if err:
        return
    b.check("nothing of the templates remains", not leftovers(T.plain(got)), {**detail, "result": T.show(got)})
    b.check("own values, then the nearest template's", T.same(T.plain(got), want), {**detail, "result": T.show(got, 900), "expected": T.show(want, 900)})
    b.check("the given definition is not modified", T.same(T.plain(given), data), detail)


@bounded("C03", targets=["preprocess.model_definition.TemplateSolver._resolve_data"], trials=200, shards=1, budget_s=60)
def circular_and_misplaced(b):
    """Cycles of every length raise a model error, used or not; a templates section elsewhere raises a model error."""
    from calliope import exceptions
    from calliope.attrdict import AttrDict
    from calliope.preprocess.model_definition import TemplateSolver

    rng = b.rng
    n = rng.randint(1, 5)
    names = NAMES[:n]
    rng.shuffle(names)
    t = {names[i]: {"v": i, **({"template": names[(i + 1) % n]} if rng.random() < 0.7 else {"sub": {"template": names[(i + 1) % n]}})} for i in range(n)}
    t = dict(rng.sample(list(t.items()), n))
    t["other"] = {"x": 1}
    d = {"templates": t, "techs": {"a": {"template": rng.choice(["other", names[0]])}}}
    b.case(T.show(d))
    try:
        got = TemplateSolver(AttrDict(d)).resolved_data
        b.check("a cycle raises a model error", False, {"definition": T.show(d), "result": T.show(got)})
    except exceptions.ModelError:
        b.check("a cycle raises a model error", True)
    except (RecursionError, KeyError) as e:
        b.check("a cycle raises a model error", False, {"definition": T.show(d), "error": repr(e)[:200]})
    k = rng.choice(["techs", "nodes", "techs.a", "nodes.b.c"])
    d = AttrDict({"techs": {"a": {"x": 1}}, "nodes": {"b": {"c": {"y": 2}}}})
    d.set_key(k + ".templates", {"T": {"z": 1}})
    try:
        TemplateSolver(d)
        b.check("misplaced templates raise a model error", False, {"at": k})
    except exceptions.ModelError:
        b.check("misplaced templates raise a model error", True)
