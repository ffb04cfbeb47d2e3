"""C04: precedence of base definition, scenario overrides, override dictionary and initialisation keywords."""
import copy

from dv.registry import bounded

from . import trees as T
from .c03_templates import Circular, Clash, resolve

D = "preprocess.model_definition."
TARGETS = [D + "prepare_model_definition", D + "_load_scenario_overrides", D + "_combine_overrides", D + "_load_overrides_from_scenario"]


class Refused(Exception):
    pass


def pool(rng):
    """{path: value generator}; the kinds of value are fixed per trial, so no plain value meets a section."""
    num = lambda: rng.choice([0, 1, 2, 5, 7.5, 100, float("inf")])
    txt = lambda: rng.choice(["x", "some text", "yy", "z1"])
    flag = lambda: rng.random() < 0.5
    nul = lambda g: lambda: None if rng.random() < 0.2 else g()
    P = {}
    indexed = rng.random() < 0.5
    for t in ("t1", "t2", "t3"):
        P["techs", t, "name"] = nul(txt)
        P["techs", t, "base_tech"] = lambda: rng.choice(["supply", "demand"])
        P["techs", t, "cap_max"] = nul(num)
        P["techs", t, "active"] = flag
        P["techs", t, "carrier_out"] = lambda: rng.choice(["power", ["power", "heat"], ["heat"]])
        if indexed:
            P["techs", t, "cost", "data"] = num
            P["techs", t, "cost", "index"] = lambda: rng.choice(["monetary", "co2"])
            P["techs", t, "cost", "dims"] = lambda: "costs"
        else:
            P["techs", t, "cost"] = num
    for n in ("n1", "n2"):
        P["nodes", n, "area"] = nul(num)
        for t in ("t1", "t2"):
            P["nodes", n, "techs", t, "cap_max"] = nul(num)
            P["nodes", n, "techs", t, "cap_min"] = num
            if rng.random() < 0.4:
                P["nodes", n, "techs", t] = lambda: None
    P["data_definitions", "p1"] = nul(num)
    P["data_definitions", "p2", "data"] = num
    P["data_definitions", "p2", "index"] = txt
    P["data_definitions", "p2", "dims"] = lambda: rng.choice(["costs", "carriers"])
    C = {
        ("name",): nul(txt), ("time_cluster",): nul(txt), ("distance_unit",): lambda: rng.choice(["km", "m"]),
        ("subset", "timesteps"): nul(lambda: rng.choice([["2005-01", "2005-02"], ["2005-03", "2005-04"]])),
        ("subset", "nodes"): nul(lambda: rng.choice([["n1"], ["n1", "n2"]])),
        ("resample", "timesteps"): nul(lambda: rng.choice(["2h", "3h"])), ("broadcast_input_data",): flag,
        ("mode",): lambda: rng.choice(["base", "operate", "spores"]), ("extra_math",): lambda: rng.choice([[], ["milp"], ["storage_inter_cluster", "milp"]]),
        ("pre_validate_math_strings",): flag, ("date_format",): txt,
    }
    for k, g in C.items():
        P[("config", "init", *k)] = g
    P["config", "build", "objective"] = txt
    P["config", "build", "ensure_feasibility"] = flag
    P["config", "build", "operate", "window"] = lambda: rng.choice(["12h", "24h"])
    P["config", "build", "operate", "horizon"] = lambda: rng.choice(["24h", "48h"])
    P["config", "solve", "solver"] = txt
    P["config", "solve", "zero_threshold"] = lambda: rng.choice([0, 1e-3, 1e-8])
    P["config", "solve", "spores", "number"] = lambda: rng.randint(1, 9)
    P["config", "solve", "shadow_prices"] = lambda: rng.choice([[], ["a"], ["a", "b"]])
    for t in ("T1", "T2"):
        P["templates", t, "colour"] = txt
        P["templates", t, "cap_max"] = num
        P["templates", t, "extra"] = nul(num)
    P["templates", "T2", "template"] = lambda: "T1"
    P["techs", "t1", "template"] = lambda: rng.choice(["T1", "T2"])
    P["techs", "t2", "template"] = lambda: rng.choice(["T1", "T2"])
    return P, C


def pick(rng, P, n, must=()):
    out = {}
    for p in [*must, *rng.sample(list(P), min(n, len(P)))]:
        try:
            T.write(out, p, P[p]())
        except (TypeError, AttributeError):
            pass
    return out


def overlay(A, B):
    """B over A; sections marked with the replacement marker are replaced whole."""
    marks = {p[: p.index("_REPLACE_")] for p in T.leaves(B) if "_REPLACE_" in p}
    rest = {}
    for p, v in T.leaves(B).items():
        if "_REPLACE_" not in p:
            T.write(rest, p, copy.deepcopy(v))
    out = T.merged(A, rest, True)
    if out is KeyError:
        raise Clash
    for m in marks:
        T.write(out, m, copy.deepcopy(T.read(B, (*m, "_REPLACE_"))))
    return out


def expand(scenario, scenarios, overrides):
    todo = scenarios[scenario] if scenario in scenarios else scenario.split(",")
    out = set()
    for n in todo if isinstance(todo, list) else [todo]:
        if n in scenarios:
            out |= expand(n, scenarios, overrides)
        elif n in overrides:
            out.add(n)
        else:
            raise Refused(f"unknown {n}")
    return out


def effective(base, scenario, od, kwargs):
    d = overlay(base, od)
    overrides, scenarios = d.pop("overrides", None) or {}, d.pop("scenarios", None) or {}
    names = set()
    if scenario is not None:
        names = expand(scenario, scenarios, overrides)
        combined = {}
        for n in sorted(names):
            combined = T.merged(combined, overrides[n], False)
            if combined is KeyError:
                raise Refused("conflict")
        d = overlay(d, combined)
    d = overlay(d, {k: v for k, v in od.items() if k not in ("overrides", "scenarios")})
    templates = d.pop("templates", {})
    d = {k: resolve(v, templates) for k, v in d.items()}
    d = overlay(d, {"config": {"init": kwargs}})
    return d, names


def _dump(attrs):
    return {k: getattr(attrs, k).model_dump() for k in ("config", "definition")}


@bounded("C04", targets=TARGETS, trials=400, shards=4, budget_s=140)
def random_sources(b):
    """Random definitions, overrides, nested scenarios, override dictionaries and keywords: the validated definition."""
    from pydantic import ValidationError

    from calliope import exceptions
    from calliope.preprocess.model_definition import prepare_model_definition
    from calliope.schemas import CalliopeAttrs

    rng = b.rng
    P, C = pool(rng)
    fixed = [("config", "init", "name")] + [("techs", t, "base_tech") for t in ("t1", "t2", "t3")] + [("nodes", n, "techs", "t1", "cap_min") for n in ("n1", "n2")]
    T12 = [("templates", t, "colour") for t in ("T1", "T2")]
    base = pick(rng, P, rng.randint(5, 40), [p for p in fixed if p in P] + T12)
    names = ["o1", "o2", "o3", "o4"]
    clash = rng.random() < 0.3
    free = list(P)
    rng.shuffle(free)
    overrides = {}
    for n in names:
        mine = {}
        ps = free if clash else [free.pop() for _ in range(min(len(free), rng.randint(1, 6)))]
        for p in ps[: rng.randint(1, 6)] if clash else ps:
            try:
                T.write(mine, p, P[p]())
            except (TypeError, AttributeError):
                pass
        if clash:
            rng.shuffle(free)
        overrides[n] = mine
    if rng.random() < 0.25:  # a replacement inside an override
        T.write(overrides["o1"], ("nodes", "n2"), {"_REPLACE_": {"area": 3, "techs": {"t2": {"cap_min": 4}}}})
    scenarios = {"s1": rng.sample(names, 2), "s2": ["s1", rng.choice(names)], "s3": rng.choice(names), "s4": [rng.choice(["s2", "s3"]), rng.choice(names)]}
    if rng.random() < 0.15:
        scenarios[rng.choice(["s1", "s2"])] = ["o2", "nowhere"]
    base["overrides"], base["scenarios"] = overrides, scenarios
    if rng.random() < 0.1:
        base.pop("scenarios")
    od = pick(rng, P, rng.choice([0, 0, 3, 8]))
    if rng.random() < 0.3:
        o = rng.choice(names + ["o9"])
        p = rng.choice(list(P))
        T.write(od, ("overrides", o), pick(rng, {p: P[p]}, 1))
        od["scenarios"] = {rng.choice(["s1", "s9"]): [o]}
    if rng.random() < 0.2:
        T.write(od, ("techs", "t1", "_REPLACE_"), {"base_tech": "supply", "cap_max": 77}) if "t1" not in od.get("techs", {}) else None
    if rng.random() < 0.2:
        T.write(od, ("config", "init", "_REPLACE_"), {"date_format": "only"}) if "init" not in od.get("config", {}) else None
    kwargs = pick(rng, C, rng.choice([0, 0, 1, 3]))
    scenario = rng.choice([None, "s1", "s2", "s3", "s4", "s9", "o1", "o1,o2", "o3,s3", "o1,o1", ",".join(rng.sample(names, 3)), "o9", "o1,nope"])
    b.case((T.show(base), scenario, T.show(od), T.show(kwargs)))
    detail = {"base": T.show(base, 1500), "scenario": scenario, "override_dict": T.show(od, 800), "keywords": T.show(kwargs)}

    err = want = None
    try:
        d, applied = effective(base, scenario, od, kwargs)
    except Refused as e:
        err = exceptions.ModelError
    except (Clash, Circular):
        return  # a plain value meets a section: not part of this property
    g_base, g_od = copy.deepcopy(base), copy.deepcopy(od) if (od or rng.random() < 0.5) else None
    before = copy.deepcopy((g_base, g_od))
    if err is None:
        dd = copy.deepcopy(d)
        try:
            want = _dump(CalliopeAttrs(config=dd.pop("config"), definition=dd))
        except ValidationError:
            err = ValidationError
    try:
        attrs = prepare_model_definition(g_base, scenario, g_od, **copy.deepcopy(kwargs))
    except exceptions.ModelError as e:
        b.check("a model error only for conflicting or unknown overrides", err is exceptions.ModelError, lambda: {**detail, "error": str(e)})
        return
    except ValidationError as e:
        b.check("rejected only if the effective definition is invalid", err is ValidationError, lambda: {**detail, "error": str(e)})
        return
    b.check("the given definition and override dictionary are not modified", T.same([g_base], [before[0]]) and T.same([g_od], [before[1]]), lambda: detail)
    b.check("conflicting or unknown overrides raise a model error, invalid definitions are rejected", err is None, detail)
    if err is not None:
        return
    got = _dump(attrs)
    if not T.same(got, want):
        g, w = T.leaves(got), T.leaves(want)
        diff = {".".join(p): (repr(g.get(p, "-")), repr(w.get(p, "-"))) for p in {*g, *w} if not T.same([g.get(p, "-")], [w.get(p, "-")])}
        b.check("every setting has the value of the highest-priority source", False, {**detail, "(got, expected)": diff})
    else:
        b.check("every setting has the value of the highest-priority source", True)
    b.check("the applied overrides are exactly those the scenario names", set(filter(None, attrs.runtime.applied_overrides.split(";"))) == applied
            and attrs.runtime.scenario == scenario, lambda: {**detail, "applied": attrs.runtime.applied_overrides})
