"""C13: SPORES."""
import math

import numpy as np
import xarray as xr

from pyomo.core.expr.numvalue import value as pyomo_value

from dv.arr import Cell, c_add, c_div, c_eq, c_ite, c_lt, c_mul, c_neg, c_sub, const_cell
from dv.core import And, Implies, Not, Or
from dv.harness import Raised, same
from dv.registry import bounded, contract

from . import mini
from . import refmath as R
from . import upd
from .common import Only, at, attempt, parr

TARGETS = ["model.Model._solve_spores", "model.Model._spores_update_model", "model.Model._spores_save_model"]
ALG = ["integer", "relative_deployment", "random", "evolving_average"]


def caps(res):
    return {k: v for k, v in upd.as_dict(res["flow_cap"].transpose("nodes", "techs", "carriers")).items() if v is not None}


def tracked(m, par):
    """Index combinations whose technology is tracked and that exist."""
    dm = {k for k, v in upd.as_dict(m.inputs.definition_matrix.transpose("nodes", "techs", "carriers")).items() if v}
    if par is None or par not in m.inputs:
        return dm
    t = m.inputs[par]
    td = upd.as_dict(t)
    pos = {"nodes": 0, "techs": 1, "carriers": 2}
    return {k for k in dm if td.get(tuple(k[pos[d]] for d in t.dims)) not in (None, False, 0)}


def integer(prev, trk, factor, old):
    out = {}
    for k in trk:
        top = max((v for kk, v in prev.items() if kk in trk and kk[2] == k[2]), default=None)
        hit = k in prev and prev[k] > factor * top
        out[k] = old.get(k, 0.0) + (1000.0 if hit else 0.0)
    return out


def score(alg, hist, trk, factor, old, cmax):
    """Penalties from the capacities of earlier results."""
    prev = hist[-1]
    if alg == "integer":
        return integer(prev, trk, factor, old)
    if alg == "relative_deployment":
        out = {}
        for k in trk:
            r = prev.get(k, 0.0) / cmax[k] if cmax.get(k) else 0.0
            out[k] = old.get(k, 0.0) + (r if r > factor else 0.0)
        return out
    rel = {}
    for k in prev:
        avg = sum(h[k] for h in hist) / len(hist)
        if avg:
            rel[k] = abs(avg - prev[k]) / avg
    if sum(rel.values()) == 0:
        return integer(prev, trk, factor, old)
    return {k: (1 / max(rel[k], 0.001) if k in rel else 0.0) for k in trk}


def field(m, vals):
    a = xr.DataArray(np.zeros((m.inputs.sizes["nodes"], m.inputs.sizes["techs"], m.inputs.sizes["carriers"])), dims=["nodes", "techs", "carriers"],
                     coords={d: m.inputs[d].values for d in ("nodes", "techs", "carriers")})
    for k, v in vals.items():
        a.loc[dict(zip(a.dims, k))] = v
    return a


def run(b, m, rng, cfg, tag, detail, inputs, held=None):
    """One solve() in SPORES mode, every problem compared with the reference."""
    from calliope.backend.pyomo_backend_model import PyomoBackendModel as B

    real = B._solve
    recs = []
    pm = R.plain_math(m)
    alg, factor, par = cfg["scoring_algorithm"], cfg.get("score_threshold_factor", 0.1), cfg.get("tracking_parameter")
    trk = tracked(m, par)
    cm = upd.as_dict(inputs["flow_cap_max"]) if "flow_cap_max" in inputs else {}
    cpos = {"nodes": 0, "techs": 1, "carriers": 2}
    cmax = {k: cm.get(tuple(k[cpos[d]] for d in inputs["flow_cap_max"].dims)) for k in trk} if cm else {}
    use = cfg.get("use_latest_results", False)
    state = {"score": {}, "base": None, "hist": []}
    latest = 0
    if use:
        if "spores" in m.results.dims:
            latest = int(max(m.results.spores.values))
            last = m.results.sel(spores=latest)
            sc = upd.as_dict(last.spores_score_cumulative.transpose("nodes", "techs", "carriers")) if "spores_score_cumulative" in last else {}
            state["score"] = {k: v for k, v in sc.items() if v}
            base0 = m.results.sel(spores=min(m.results.spores.values))
        else:
            last = base0 = m.results
        state["hist"] = [caps(last)]
        state["base"] = float(inputs["spores_baseline_cost"]) if "spores_baseline_cost" in inputs else float(base0["min_cost_optimisation"])
        if "spores_baseline_cost_tracked" in last and math.isfinite(float(last["spores_baseline_cost_tracked"])):
            state["base"] = float(last["spores_baseline_cost_tracked"])

    def hook(self, *a, **k):
        first = not use and not recs
        if first:
            sc = {}
            base = float(inputs["spores_baseline_cost"]) if "spores_baseline_cost" in inputs else math.inf
        else:
            base = state["base"]
            sc = None if alg == "random" else score(alg, state["hist"], trk, factor, state["score"], cmax)
            if alg == "random":
                got = {kk: v or 0.0 for kk, v in upd.as_dict(self.get_parameter("spores_score", as_backend_objs=False).transpose("nodes", "techs", "carriers")).items()}
                inc = {kk: v - state["score"].get(kk, 0.0) for kk, v in got.items()}
                b.check(f"{tag}random scores add 0 or 1000 at tracked, existing technologies only",
                        all((v in (0.0, 1000.0)) if kk in trk and kk in state["hist"][-1] else v == 0 for kk, v in inc.items()),
                        {**detail, "increments": str({kk: v for kk, v in inc.items() if v})[:400]})
                sc = got
            state["score"] = {kk: v for kk, v in sc.items()} if alg != "evolving_average" else {**{kk: 0.0 for kk in state["score"]}, **sc}
        want = inputs.copy()
        want["spores_score"] = field(m, {kk: v for kk, v in sc.items()})
        want["spores_baseline_cost"] = xr.DataArray(base)
        obj = m.config.build.objective if first else "min_spores"
        b.check(f"{tag}the baseline has the model's objective, alternatives the penalty objective", self.objective == obj, {**detail, "objective": self.objective})
        act = [o for o in self.objectives.data_vars if self.objectives[o].item().active]
        b.check(f"{tag}exactly one objective is active", act == [obj], {**detail, "active": act})
        if math.isfinite(base):
            ref = R.Ref(want, pm, m.config.build).build()
            ref.postprocessed = {}
            class V:
                backend = self
            R.compare(b, V, ref, what=("constraints", "objectives"), tag=f"{tag}{'baseline' if first else 'alternative'}: ")
        else:
            c = self.constraints["total_system_cost_max"].item() if "total_system_cost_max" in self.constraints else None
            b.check(f"{tag}no cost limit on the baseline", c is None or not hasattr(c, "upper") or c.upper is None or pyomo_value(c.upper) == math.inf, {**detail, "upper": str(c.upper) if c is not None else None})
        res = real(self, *a, **k)
        recs.append(res.copy(deep=True))
        if res:
            state["hist"].append(caps(res))
            if first:
                state["base"] = base if math.isfinite(base) else float(res["min_cost_optimisation"])
            else:
                slack = float(inputs["spores_slack"]) if "spores_slack" in inputs else 0.0
                v = float(res["min_cost_optimisation"])
                lim = state["base"] * (1 + slack)
                b.check(f"{tag}every alternative respects the cost limit", v <= lim + 1e-5 * max(1, abs(lim)), {**detail, "cost": v, "limit": lim})
        return res

    B._solve = hook
    try:
        m.solve(force=True, spores=cfg)
    finally:
        B._solve = real
    n = cfg["number"]
    want = n - latest + (0 if use else 1)
    stop = next((i for i, r in enumerate(recs) if not r), None)
    if stop is None:
        b.check(f"{tag}one solve per result", len(recs) == want, {**detail, "solves": len(recs), "expected": want})
    good = [r for r in recs if r]
    nums = list(range(0, latest + (1 if use else 0) + len(good))) if use else list(range(len(good)))
    got = [int(x) for x in m.results.spores.values]
    b.check(f"{tag}results are numbered consecutively from the baseline", got == nums, {**detail, "numbers": got, "expected": nums})
    if got != nums:
        return
    thr = m.config.solve.zero_threshold
    off = (latest + 1) if use else 0
    for i, r in enumerate(good):
        here = m.results.sel(spores=off + i)
        for v in r.data_vars:
            if r[v].dtype.kind != "f":
                continue
            x = r[v].values
            x = np.where(np.abs(x) < thr, 0, x)
            y = here[v].transpose(*r[v].dims).reindex_like(r[v]).values if v in here else None
            b.check(f"{tag}each result is stored under its number", y is not None and np.allclose(x, y, atol=1e-9, equal_nan=True), {**detail, "array": v, "number": off + i})
    if held is not None and use and "spores" in held.dims:
        for v in held.data_vars:
            h = m.results[v].sel(spores=held.spores.values) if v in m.results else None
            b.check(f"{tag}earlier results are kept", h is not None and np.allclose(np.asarray(h.transpose(*held[v].dims).reindex_like(held[v]).values, float), np.asarray(held[v].values, float), atol=1e-9, equal_nan=True), {**detail, "array": v})


@bounded("C13", targets=TARGETS, trials=16, shards=4, budget_s=300)
def random_spores(b):
    """Random models, scoring rules, thresholds, tracking; histories of solving, solving again with changed data, continuing."""
    rng = b.rng
    over = mini.vary(rng)
    for t in ("gas", "pv", "battery", "boiler", "chp", "line"):
        over["techs"].setdefault(t, {})
    over["techs"]["gas"].pop("flow_cap_max", None)
    for t, c in (("demand", 1e3), ("heat_demand", 1e3), ("boiler", 15), ("chp", 20)):
        over["techs"].setdefault(t, {})["flow_cap_max"] = c
    over["nodes"]["b"].setdefault("techs", {}).update({"battery": {"storage_cap_max": 9}, "gas": None, "chp": None})
    over.setdefault("config", {}).setdefault("init", {})["mode"] = "spores"
    over.setdefault("data_definitions", {})["spores_slack"] = rng.choice([0.05, 0.2, 0.5, 1])
    par = None
    if rng.random() < 0.5:
        par = "follow"
        names = rng.sample(["gas", "pv", "battery", "boiler", "chp", "line"], rng.randint(1, 4))
        flags = [rng.random() < 0.8 for _ in names]
        flags[0] = True
        over["data_definitions"]["follow"] = {"data": flags, "index": names, "dims": "techs"}
    own = rng.random() < 0.15
    if own:
        over["data_definitions"]["spores_baseline_cost"] = 1e4
    m = mini.model(over, nt=3)
    inputs = m.inputs.copy(deep=True)
    cfg = {"number": rng.randint(1, 3), "scoring_algorithm": rng.choice(ALG), "tracking_parameter": par, "score_threshold_factor": rng.choice([0, 0.1, 0.3, 0.7])}
    b.case((cfg["scoring_algorithm"], cfg["number"], par is None, cfg["score_threshold_factor"]))
    detail = {"spores": cfg, "definition": str(over)[:1500]}
    m.build()
    start = rng.choice(["fresh", "fresh", "from base"])
    try:
        if start == "from base":
            m0 = mini.model({**over, "config": {**over["config"], "init": {"mode": "base"}}}, nt=3)
            m0.build()
            m0.solve()
            if not m0.results:
                return
            import calliope

            m = calliope.Model(inputs=m0.inputs, results=m0.results, attrs=m0.all_attrs, mode="spores")
            m.build()
            cfg["use_latest_results"] = True
            run(b, m, rng, cfg, "from base results, ", detail, inputs)
        else:
            run(b, m, rng, cfg, "", detail, inputs)
    except Exception as e:
        if "Cannot run SPORES without baseline" in str(e) or "undefined for some or all tracked" in str(e):
            return
        raise
    if b.fails or not m.results:
        return
    how = rng.choice(["again", "changed", "continue", "continue"])
    held = m.results.copy(deep=True)
    if how == "changed":
        f = rng.choice([0.5, 1.3])
        new = inputs["sink_use_equals"] * f
        m.backend.update_input("sink_use_equals", new)
        inputs = inputs.copy()
        inputs["sink_use_equals"] = new
        cfg2 = {**cfg, "use_latest_results": False}
    elif how == "again":
        cfg2 = {**cfg, "use_latest_results": False}
    else:
        cfg2 = {**cfg, "use_latest_results": True, "number": cfg["number"] + rng.randint(1, 2), "scoring_algorithm": rng.choice(ALG)}
    try:
        run(b, m, rng, cfg2, f"{how}: ", {**detail, "second": cfg2}, inputs, held)
    except Exception as e:
        if "Cannot run SPORES without baseline" in str(e) or "undefined for some or all tracked" in str(e):
            return
        raise
    if rng.random() < 0.5:
        # nothing left to add: refused, results kept
        held = m.results.copy(deep=True)
        try:
            m.solve(force=True, spores={**cfg2, "use_latest_results": True, "number": int(max(m.results.spores.values))})
            b.check("continuing with nothing to add is refused", False, detail)
        except Exception as e:
            from calliope.exceptions import ModelError

            b.check("continuing with nothing to add is refused", isinstance(e, ModelError) and held.identical(m.results), {**detail, "error": repr(e)[:200]})


# ---------------------------------------------------------------- proofs: the scores, for all capacities


def _update(h, alg, n_prev=2):
    """Runs _spores_update_model on arbitrary arrays; returns everything the specification needs."""
    import calliope.model as mod

    nodes, techs, carriers = h.dim("nodes"), h.dim("techs"), h.dim("carriers")
    full = [nodes, techs, carriers]
    m = mod.Model.__new__(mod.Model)
    dm = h.array("definition_matrix", full, "b")
    arrays = [dm]
    par = h.choose("tracking", ["none", "flag", "missing"])
    trk = None
    if par == "flag":
        trk = h.array("track", [techs], "O", null=True)
        arrays.append(trk)
    cmax = None
    if alg == "relative_deployment" and h.choose("flow_cap_max", [True, False]):
        cmax = h.array("flow_cap_max", [nodes, techs], "f", null=True, inf=True)
        arrays.append(cmax)
    hist = [abs(h.array(f"flow_cap_{i}", full, "f", null=True)) for i in range(n_prev)]
    old = h.array("spores_score", full, "f", null=True)
    m.inputs = h.dataset(arrays, full)
    sent = []
    m.backend = Only(get_parameter=lambda name, as_backend_objs=True: old, update_input=lambda name, value: sent.append((name, value)))
    factor = h.real("threshold")
    cfg = Only(scoring_algorithm=alg, score_threshold_factor=factor, tracking_parameter=None if par == "none" else "track", use_latest_results=False)
    prev = [Results(flow_cap=x) for x in hist]
    with h.patch(mod):
        r = attempt(h, m._spores_update_model, prev, cfg)
    tracks = lambda env: And(h.cell(dm, env).val, trk is None or And(Not(at(h, trk, env).null), Not(c_eq(at(h, trk, env), const_cell(0.0)).val)))
    return full, tracks, hist, old, cmax, factor, r, sent


class Results(Only):
    def __getitem__(self, k):
        return getattr(self, k)


def _zero(c):
    return c_ite(c.null, const_cell(0.0), c)


def _sent(h, r, sent):
    if isinstance(r, Raised):
        h.prove("does not raise", False)
        return None
    h.prove("exactly the score is updated, once", len(sent) == 1 and sent[0][0] == "spores_score")
    return sent[0][1]


def _integer(h, full, tracks, prev, old, factor):
    """old score + 1000 where the tracked capacity exceeds the threshold's share of the largest tracked capacity of that carrier."""
    dn, dt, dc = full
    P = lambda env: c_ite(tracks(env), h.cell(prev, env), const_cell(float("nan")))
    top = parr(full, P, "f").max(["nodes", "techs"])
    f = h.spec(factor).at({})

    def want(env):
        c = P(env)
        hit = And(Not(c.null), c_lt(c_mul(f, at(h, top, {"carriers": env["carriers"]})), c).val)
        return c_ite(tracks(env), c_add(c_ite(hit, const_cell(1000.0), const_cell(0.0)), _zero(h.cell(old, env))), const_cell(float("nan")))
    return want


@contract("C13", targets=["model.Model._spores_update_model"])
def integer_scores(h):
    """Integer scoring, for all capacities, thresholds and tracked technologies."""
    full, tracks, hist, old, _, factor, r, sent = _update(h, "integer")
    got = _sent(h, r, sent)
    if got is not None:
        want = _integer(h, full, tracks, hist[-1], old, factor)
        h.prove("1000 is added exactly where a tracked technology has a relevant capacity", h.forall(full, lambda env: same(h.cell(got, env), want(env))))


@contract("C13", targets=["model.Model._spores_update_model"])
def relative_scores(h):
    """Relative deployment scoring, for all capacities, limits and thresholds."""
    full, tracks, hist, old, cmax, factor, r, sent = _update(h, "relative_deployment")
    nan = const_cell(float("nan"))
    if cmax is not None:
        M = lambda env: at(h, cmax, env)
        unlimited = parr(full, lambda env: Cell("b", And(tracks(env), Not(M(env).null), M(env).pinf)), "b").any()
        unlimited = at(h, unlimited, {}).val
    if isinstance(r, Raised):
        from calliope.exceptions import BackendError

        h.prove("refused only without limits of tracked technologies", And(r.isa(BackendError), not sent, True if cmax is None else unlimited))
        return
    h.prove("without limits of the tracked technologies the scoring is refused", cmax is not None and Not(unlimited))
    got = _sent(h, r, sent)
    f = h.spec(factor).at({})

    def want(env):
        q = c_div(h.cell(hist[-1], env), M(env))
        hit = And(Not(q.null), c_lt(f, q).val)
        return c_ite(tracks(env), c_add(c_ite(hit, q, const_cell(0.0)), _zero(h.cell(old, env))), nan)

    h.prove("the relative deployment is added exactly where it is above the threshold", h.forall(full, lambda env: same(h.cell(got, env), want(env))))


@contract("C13", targets=["model.Model._spores_update_model"])
def evolving_scores(h):
    """Evolving average scoring, for all capacities of the earlier results."""
    full, tracks, hist, old, _, factor, r, sent = _update(h, "evolving_average")
    nan = const_cell(float("nan"))
    got = _sent(h, r, sent)
    if got is None:
        return

    def rel(env):
        s = h.cell(hist[0], env)
        for x in hist[1:]:
            s = c_add(s, h.cell(x, env))
        avg = c_div(s, const_cell(float(len(hist))))
        d = c_sub(avg, h.cell(hist[-1], env))
        return c_div(c_ite(d.val < 0, c_neg(d), d), avg)

    total = h.cell(parr(full, rel, "f").sum(), {})
    first = And(Not(total.null), total.val == 0)
    want1 = _integer(h, full, tracks, hist[-1], old, factor)

    def want2(env):
        q = rel(env)
        q = c_ite(And(Not(q.null), c_lt(q, const_cell(0.001)).val), const_cell(0.001), q)
        return c_ite(And(tracks(env), Not(q.null)), c_div(const_cell(1.0), q), const_cell(0.0))

    h.prove("without any change: integer scores", Implies(first, h.forall(full, lambda env: same(h.cell(got, env), want1(env)))))
    h.prove("otherwise the reciprocal of the relative change", Implies(Not(first), h.forall(full, lambda env: same(h.cell(got, env), want2(env)))))


@contract("C13", targets=["model.Model._spores_update_model"])
def random_scores(h):
    """Random scoring: 0 or 1000 is added at tracked technologies with a capacity, for every draw."""
    draws = []

    def choice(options, size=None, **k):
        from dv.core import Unsupported

        if not isinstance(options, list) or k:
            raise Unsupported("np.random.choice")
        d = [h.eng_dims[n] for n in ("nodes", "techs", "carriers")]
        a = h.array(f"draw{len(draws)}", d, "f", null=False)
        pick = parr(d, lambda env: _pick(options, h.cell(a, env)), "f")
        draws.append(pick)
        return pick

    if h.mode == "concrete":
        full, tracks, hist, old, _, factor, r, sent = _update(h, "random")
    else:
        orig = h.dim

        def dim(name, *a, **k):
            D = orig(name, *a, **k)
            h.eng_dims[name] = D
            return D

        h.eng_dims, h.dim = {}, dim
        with h.stub((np.random, "choice", choice)):
            full, tracks, hist, old, _, factor, r, sent = _update(h, "random")
    got = _sent(h, r, sent)
    if got is None:
        return

    def right(env):
        add = c_sub(h.cell(got, env), _zero(h.cell(old, env)))
        ok = [same(add, const_cell(0.0))]
        known = Not(h.cell(hist[-1], env).null)
        return And(Implies(Not(tracks(env)), h.cell(got, env).null),
                   Implies(And(tracks(env), Not(known)), ok[0]),
                   Implies(And(tracks(env), known), Or(ok[0], same(add, const_cell(1000.0)))))

    h.prove("0 or 1000 is added exactly at tracked technologies with a capacity", h.forall(full, right))


def _pick(options, c):
    """One of the options, by the sign of an arbitrary number."""
    out = const_cell(float(options[-1]))
    for i, o in enumerate(options[:-1]):
        out = c_ite(c.val > i, const_cell(float(o)), out)
    return out
