"""C06: configuration updates."""
import copy
import warnings
from pathlib import Path

from dv.registry import bounded

from . import mini
from . import trees as T

D = "schemas.general."
TARGETS = [D + "CalliopeBaseModel.update", D + "CalliopeDictModel.update", D + "CalliopeListModel.update"]
TXT = ["x", "yy", "some text"]
# {option path: (valid values, invalid values)}; values are distinct from the defaults where possible
OPTIONS = {
    "init.name": ([None, "a", "b"], [5, ["a"], {"x": 1}]),
    "init.calliope_version": ([None, "0.7"], [0.7]),
    "init.broadcast_input_data": ([True, False], ["perhaps", [True]]),
    "init.datetime_format": (TXT, [None, 3]),
    "init.date_format": (TXT, [None]),
    "init.distance_unit": (["km", "m"], ["mile", None, 3]),
    "init.mode": (["base", "operate", "spores"], ["plan", None]),
    "init.time_cluster": ([None, "cluster"], ["_x", 4]),
    "init.extra_math": ([[], ["milp"], ["a", "b"], ["b", "a"]], [["a", "a"], "milp", None, [1]]),
    "init.pre_validate_math_strings": ([True, False], ["perhaps"]),
    "init.subset.timesteps": ([["2005-01", "2005-02"], ["2005-03", "2005-04"], None], [[], "2005"]),
    "init.subset.nodes": ([["a"], ["a", "b"]], [[]]),
    "init.resample.timesteps": (["2h", "3h", None], [3, ["2h"]]),
    "init.math_paths.mine": ([Path("a.yaml"), Path("b/c.yaml")], [None, 3]),
    "build.backend": (["pyomo", "gurobi"], ["other", None]),
    "build.ensure_feasibility": ([True, False], ["perhaps", None]),
    "build.objective": (TXT, [None, 4]),
    "build.operate.window": (["12h", "24h", "36h"], [12, None]),
    "build.operate.horizon": (["24h", "48h"], [None]),
    "solve.postprocessing_active": ([True, False], ["perhaps"]),
    "solve.save_logs": ([None, Path("logs")], [4]),
    "solve.shadow_prices": ([[], ["a"], ["a", "b"]], ["a", ["a", "a"], None]),
    "solve.solver": (TXT, [None, 3]),
    "solve.solver_io": ([None, "python"], [3]),
    "solve.solver_options": ([{}, {"threads": 2}, {"threads": 3, "tol": 0.1}], [3, None, [1]]),
    "solve.zero_threshold": ([0.0, 1e-5, 0.1], [None, "small", [1]]),
    "solve.spores.number": ([0, 1, 7], [None, 2.5, "many"]),
    "solve.spores.scoring_algorithm": (["integer", "relative_deployment", "random", "evolving_average"], ["other", None]),
    "solve.spores.save_per_spore_path": ([None, Path("s")], [3]),
    "solve.spores.use_latest_results": ([True, False], ["perhaps"]),
    "solve.spores.tracking_parameter": ([None, "p"], [3]),
    "solve.spores.score_threshold_factor": ([0.0, 0.5, 2.0], [-1, None]),
}
UNKNOWN = ["unknown", "init.unknown", "build.objectiv", "build.operate.wndow", "solve.spores.nmber", "solve.solvr", "init.update", "solve.model_fields",
           "inti.name", "build.operate.unknown.deeper", "solve.spores.unknown"]


def options(rng, bad=False):
    """{path: value}; at most one invalid entry."""
    out = {}
    for p in rng.sample(list(OPTIONS), rng.choice([0, 1, 1, 2, 4])):
        out[p] = copy.deepcopy(rng.choice(OPTIONS[p][0]))
    if bad:
        if rng.random() < 0.5:
            p = rng.choice(list(OPTIONS))
            out[p] = copy.deepcopy(rng.choice(OPTIONS[p][1]))
        else:
            out[rng.choice(UNKNOWN)] = rng.choice([None, 1, "x", True])
    return out


def shape(rng, opts):
    """The same request nested and/or dotted at random depths."""
    out = {}
    for p, v in opts.items():
        ks = p.split(".")
        cut = sorted(rng.sample(range(1, len(ks)), rng.randint(0, len(ks) - 1)))
        parts = [".".join(ks[i:j]) for i, j in zip([0, *cut], [*cut, len(ks)])]
        t = out
        ok = True
        for x in parts[:-1]:
            t = t.setdefault(x, {})
        t[parts[-1]] = v
    return out


def flat(c):
    d = c.model_dump()
    return {p: T.read(d, tuple(p.split("."))) for p in OPTIONS}


@bounded("C06", targets=TARGETS, trials=2500, shards=4, budget_s=120)
def random_updates(b):
    """Random starting configurations and updates of the real configuration classes, nested and dotted, valid and invalid."""
    from pydantic import ValidationError

    from calliope.schemas.config_schema import CalliopeConfig

    rng = b.rng
    start = shape(rng, {p: copy.deepcopy(rng.choice(v[0])) for p, v in rng.sample(list(OPTIONS.items()), rng.randint(0, 12))})
    c0 = CalliopeConfig().update(copy.deepcopy(start))
    bad = rng.random() < 0.4
    opts = options(rng, bad)
    upd = shape(rng, opts)
    b.case((start, upd))
    detail = {"start": repr(start), "update": repr(upd)}
    before, dump = flat(c0), copy.deepcopy(c0.model_dump())
    given = copy.deepcopy(upd)
    deep = rng.random() < 0.3
    invalid = any(p not in OPTIONS or any(T.same([v], [x]) for x in OPTIONS[p][1]) for p, v in opts.items())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            c1 = c0.update(given, deep=deep)
        except (ValidationError, ValueError) as e:
            b.check("rejected only if an option is unknown or of the wrong type", invalid, lambda: {**detail, "error": str(e)[:500]})
            b.check("a refused update leaves the original unchanged", T.same(c0.model_dump(), dump), detail)
            return
    unknown = [p for p in opts if p not in OPTIONS]
    wrong = [p for p, v in opts.items() if p in OPTIONS and any(T.same([v], [x]) for x in OPTIONS[p][1])]
    b.check("wrong types are rejected", not wrong, lambda: {**detail, "result": repr(c1)[:800]})
    if unknown:
        # known finding: accepted; at least they must have no effect at all
        b.known.append("unknown-ignored")
        opts = {p: v for p, v in opts.items() if p in OPTIONS}
        invalid = bool(wrong)
    b.check("the original is unchanged", T.same(c0.model_dump(), dump), detail)
    b.check("the update request is not modified", T.same(T.plain(given), upd), detail)
    b.check("same class", type(c1) is type(c0))
    if invalid:
        return
    after = flat(c1)
    want = {**before, **opts}
    bad_ = {p: (repr(after[p]), repr(want[p])) for p in OPTIONS
            if not T.same([after[p]], [want[p]]) and not (after[p] is T.MISSING and want[p] is None or want[p] is T.MISSING and after[p] is None)}
    b.check("exactly the named options have the new values", not bad_, {**detail, "(got, expected)": bad_})
    # nothing but the named options: the rest of the dump too (user-named entries)
    rest = lambda d: {p: v for p, v in T.leaves(d).items() if not any(T.relatives(p, tuple(o.split("."))) for o in opts)}
    strip = lambda d: {p: v for p, v in rest(d).items() if not (isinstance(v, dict) and not v)}
    b.check("every other option keeps its value", T.same({".".join(p): v for p, v in strip(c1.model_dump()).items()}, {".".join(p): v for p, v in strip(dump).items()}),
            lambda: {**detail, "before": repr(strip(dump))[:600], "after": repr(strip(c1.model_dump()))[:600]})
    # no sharing of mutable values with the request or the original
    for v in (given, c1.model_dump()):
        for m in T.mappings(v).values():
            m["tampered"] = 1
    c1.solve.solver_options["tampered"] = 1
    b.check("the original shares nothing with the result", T.same(c0.model_dump(), dump), detail)


@bounded("C06", targets=[*TARGETS, "model.Model.build", "model.Model.solve", "model.Model.__init__"], trials=5, shards=4, budget_s=120)
def random_keywords(b):
    """Keywords at initialisation, build and solve of a model affect only the options named."""
    from pydantic import ValidationError

    rng = b.rng
    init = {p: v for p, v in {"name": "kw", "distance_unit": "m", "broadcast_input_data": True, "pre_validate_math_strings": True, "date_format": "x"}.items() if rng.random() < 0.4}
    m = mini.model({}, nt=3, **init)
    b.case((init,))
    base = mini.model({}, nt=3)
    want = {**flat(base.config), **{"init." + k: v for k, v in init.items()}}
    same = lambda c, w: {p: (repr(x), repr(w[p])) for p, x in flat(c).items() if not T.same([x], [w[p]]) and {repr(x), repr(w[p])} != {repr(T.MISSING), "None"}}
    d = same(m.config, want)
    b.check("initialisation keywords affect only the options named", not d, {"keywords": init, "(got, expected)": d})
    build = {p: v for p, v in {"ensure_feasibility": False, "objective": "min_cost_optimisation", "operate": {"window": "12h"}}.items() if rng.random() < 0.5}
    bad = rng.choice([{"backend": "none"}, {"operate": {"window": 3}}, {"ensure_feasibility": "perhaps"}])
    held = m.config
    try:
        m.build(**bad)
        b.check("invalid build keywords are rejected", False, {"keywords": bad})
    except ValidationError:
        b.check("invalid build keywords are rejected", not m.is_built and m.config == held, {"keywords": bad})
    m.build(**copy.deepcopy(build))
    for k, v in build.items():
        if k == "operate":
            want["build.operate.window"] = v["window"]
        else:
            want["build." + k] = v
    d = same(m.config, want)
    b.check("build keywords affect only the options named, and are remembered", not d, {"keywords": build, "(got, expected)": d})
    b.check("the backend uses the configuration given", m.backend.config == m.config.build)
    solve = {p: v for p, v in {"zero_threshold": 1e-4, "shadow_prices": ["system_balance"], "postprocessing_active": False, "spores": {"number": 2}, "solver_options": {"ratioGap": 0.1}}.items() if rng.random() < 0.5}
    bad = rng.choice([{"solver": 3}, {"zero_threshold": "x"}, {"spores": {"number": "many"}}])
    held = m.config
    try:
        m.solve(**bad)
        b.check("invalid solve keywords are rejected", False, {"keywords": bad})
    except ValidationError:
        b.check("invalid solve keywords are rejected", not m.is_solved and m.config == held, {"keywords": bad})
    m.solve(**copy.deepcopy(solve))
    for k, v in solve.items():
        if k == "spores":
            want["solve.spores.number"] = v["number"]
        else:
            want["solve." + k] = v
    d = same(m.config, want)
    b.check("solve keywords affect only the options named, and are remembered", not d, {"keywords": solve, "(got, expected)": d})
