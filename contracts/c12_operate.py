"""C12: operate mode."""
import copy
import math

import numpy as np
import pandas as pd
import xarray as xr

from dv.arr import Cell, c_div, c_ite, const_cell
from dv.core import And, Iff, Not, Or
from dv.harness import Raised, same
from dv.registry import bounded, contract

from . import mini
from . import refmath as R
from . import upd
from .common import Only, attempt, has, parr

TARGETS = ["model.Model._prepare_operate_mode_inputs", "model.Model._solve_operate", "model.Model._recalculate_storage_initial"]

EXTRA = {
    "parameters": {"daily_min": {"default": float("nan")}},
    "lookups": {"closed": {"dtype": "bool", "default": False}},
    "constraints": {
        "flow_out_daily_min": {"foreach": ["nodes", "techs", "timesteps"], "where": "daily_min AND base_tech==conversion",
                               "equations": [{"expression": "sum(flow_out, over=carriers) >= daily_min"}]},
        "closed_now": {"foreach": ["nodes", "techs", "timesteps"], "where": "closed==true",
                       "equations": [{"expression": "sum(flow_out, over=carriers) <= 1"}]},
    },
}


def definition(rng, nt, freq, holes):
    """A dispatch problem with all capacities given, time series with and without gaps."""
    r = lambda lo, hi: round(rng.uniform(lo, hi), 3)
    t = mini.times(nt, freq)
    caps = {"demand": 1e3, "heat_demand": 1e3, "gas": r(40, 90), "pv": r(5, 12), "battery": r(3, 8), "boiler": r(10, 20), "chp": r(10, 20), "line": r(5, 10)}
    over = {"techs": {k: {"flow_cap": v} for k, v in caps.items()}, "config": {"init": {"mode": "operate"}}, "nodes": {"b": {}}}
    T = over["techs"]
    T["battery"].update(storage_cap=r(5, 20), cyclic_storage=False)
    T["pv"].update(source_cap=1e3)
    T["gas"].update(source_cap=1e3)
    if rng.random() < 0.6:
        T["battery"]["storage_initial"] = r(0, 1)
    if rng.random() < 0.3:
        T["battery"]["storage_discharge_depth"] = r(0, 0.2)
        T["battery"]["storage_initial"] = r(0.3, 1)
    if rng.random() < 0.3:
        T["gas"].update(include_storage=True, storage_cap=r(10, 30), storage_loss=r(0, 0.05), cyclic_storage=False)
    if rng.random() < 0.4:
        over["nodes"]["b"]["techs"] = {"battery": {"storage_cap": rng.choice([0, r(1, 9)])}, "boiler": None}
    if rng.random() < 0.3:
        T["chp"]["flow_ramping"] = r(0.3, 1)
    if rng.random() < 0.3:
        T["line"]["one_way"] = True
    over["techs"]["gas"]["cost_source_use"] = mini.cost(r(0.2, 1))
    over["techs"]["battery"]["cost_flow_out"] = mini.cost(r(0.01, 0.1))
    series = {
        "eff": ("flow_out_eff", "boiler", lambda: r(0.5, 1)),
        "loss": ("storage_loss", "battery", lambda: r(0, 0.1)),
        "fuel": ("source_use_max", "gas", lambda: r(60, 90)),
        "heatmin": ("sink_use_min", "heat_demand", lambda: r(0, 0.5)),
        "must": ("daily_min", "boiler", lambda: r(0, 0.4)),
        "shut": ("closed", "pv", lambda: rng.random() < 0.5),
    }
    tables, dfs = {}, {}
    for n in rng.sample(list(series), rng.randint(0, 4)):
        par, tech, gen = series[n]
        vals = [gen() for _ in range(nt)]
        if holes and n != "shut":
            mode = rng.choice(["some", "start", "end", "none"])
            vals = [float("nan") if (mode == "some" and rng.random() < 0.4 or mode == "start" and i < nt // 2 or mode == "end" and i >= nt // 2) else v for i, v in enumerate(vals)]
            if all(v != v for v in vals):
                vals[0] = gen()
        df = pd.DataFrame({"a": vals}, index=pd.Index(t.strftime("%Y-%m-%d %H:%M"), name="timesteps"))
        df.columns.name = "nodes"
        tables[n] = {"table": n, "rows": "timesteps", "columns": "nodes", "add_dims": {"inputs": par, "techs": tech}}
        dfs[n] = df
        if n == "heatmin":
            T["heat_demand"].update(sink_use_equals=None, sink_use_max=2)
        if n == "fuel":
            T["gas"]["source_unit"] = "absolute"
    over["data_tables"] = tables
    return over, dfs


def windows(ts, window, horizon):
    """[(positions of the look-ahead, positions kept)] by plain comparison of times."""
    ts = list(pd.DatetimeIndex(ts))
    starts, s = [], ts[0]
    while s <= ts[-1]:
        starts.append(s)
        s = s + pd.Timedelta(window)
    out = []
    for i, s in enumerate(starts):
        nxt = starts[i + 1] if i + 1 < len(starts) else None
        look = [k for k, x in enumerate(ts) if s <= x < s + pd.Timedelta(horizon)]
        kept = [k for k in look if nxt is None or ts[k] < nxt]
        out.append((look, kept))
    return out


def compare_results(b, got, recs, W, thr):
    n = max(k for _, kept in W for k in kept) + 1
    for v in sorted(set().union(*(set(r) for _, r in recs))):
        if "timesteps" not in recs[0][1].get(v, xr.DataArray()).dims:
            continue
        b.check("results hold every array of the windows", v in got, v)
        if v not in got:
            continue
        ok, where = True, None
        for (look, kept), (_, r) in zip(W, recs):
            if v not in r:
                continue
            for k in kept:
                x = r[v].isel(timesteps=look.index(k)).drop_vars("timesteps", errors="ignore")
                y = got[v].isel(timesteps=k).drop_vars("timesteps", errors="ignore")
                x, y = xr.align(x, y, join="outer")
                y = y.transpose(*x.dims)
                if x.dtype.kind == "O" or y.dtype.kind in "OUS":
                    continue
                xv, yv = np.asarray(x.values, float), np.asarray(y.values, float)
                xv = np.where(np.abs(xv) < thr, 0, xv)
                if not np.allclose(xv, yv, rtol=0, atol=1e-12, equal_nan=True):
                    ok, where = False, (k, xv.ravel()[:6].tolist(), yv.ravel()[:6].tolist())
        b.check("results come from the window that starts most recently", ok, {"array": v, "at, expected, got": str(where)})


def run(b, m, W, tag, holes):
    """Solve and compare every window's problem with the reference over the window's own inputs."""
    from calliope.backend.pyomo_backend_model import PyomoBackendModel as B

    recs = []
    real = B._solve
    ts = m.inputs.timesteps.values
    base = m.inputs.drop_vars(["windowsteps", "horizonsteps"], errors="ignore").copy(deep=True)
    level = {}
    pm = R.plain_math(m)

    def hook(self, *a, **k):
        i = len(recs)
        if i < len(W):
            look, kept = W[i]
            want = base.isel(timesteps=look)
            have = self.inputs.timesteps
            b.check(f"{tag}each window covers exactly its look-ahead horizon", len(have) == len(look), {"window": i, "expected": len(look), "got": len(have)})
            if i and level:
                cur = upd.as_dict(base["storage_initial"]) if "storage_initial" in base else {}
                dims = base["storage_initial"].dims if "storage_initial" in base else ()
                sc = upd.as_dict(base.storage_cap)
                arr = xr.DataArray(np.full((base.sizes["nodes"], base.sizes["techs"]), np.nan), coords={"nodes": base.nodes.values, "techs": base.techs.values}, dims=["nodes", "techs"])
                for ix in np.ndindex(*arr.shape):
                    env = {d: arr[d].values[j] for d, j in zip(arr.dims, ix)}
                    c = sc.get(tuple(env[d] for d in base.storage_cap.dims)) or 0.0
                    key = (env["nodes"], env["techs"])
                    if c > 0 and key in level:
                        arr.values[ix] = level[key] / c
                    else:
                        v = cur.get(tuple(env[d] for d in dims))
                        arr.values[ix] = np.nan if v is None else v
                want["storage_initial"] = arr
            if len(have) == len(look):
                want = want.assign_coords(timesteps=have.values)
                try:
                    ref = R.Ref(want, pm, m.config.build).build()
                except R.Incomplete:
                    ref = None
                if ref is not None:
                    class V:
                        backend = self
                    R.compare(b, V, ref, tag=f"{tag}a window's problem: ")
        res = real(self, *a, **k)
        recs.append((i, res.copy(deep=True)))
        if i < len(W) and "storage" in res:
            look, kept = W[i]
            last = res.storage.isel(timesteps=look.index(kept[-1]))
            level.clear()
            for x in last.nodes.values:
                for y in last.techs.values:
                    v = float(last.sel(nodes=x, techs=y))
                    if not math.isnan(v):
                        level[(x, y)] = v
        return res

    B._solve = hook
    try:
        m.solve(force=True)
    finally:
        B._solve = real
    b.check(f"{tag}one solve per window, all windows covered", len(recs) == len(W), {"windows": len(W), "solves": len(recs)})
    return recs


@bounded("C12", targets=TARGETS, trials=16, shards=4, budget_s=400)
def random_horizons(b):
    """Random dispatch models, windows and horizons: each window's problem, the kept results, solving again."""
    rng = b.rng
    nt = rng.randint(3, 12)
    freq = rng.choice(["h", "h", "2h"])
    holes = rng.random() < 0.6
    over, dfs = definition(rng, nt, freq, holes)
    step = 2 if freq == "2h" else 1
    w = rng.choice([1, 2, 3, 4, 6, 24]) * step if rng.random() < 0.85 else 3
    h = w * rng.choice([1, 1, 2, 3]) + rng.choice([0, 0, step])
    m = mini.model(over, nt=nt, freq=freq, math=EXTRA, dfs=dfs)
    W = windows(m.inputs.timesteps.values, f"{w}h", f"{h}h")
    b.case((nt, freq, w, h, sorted(dfs)))
    detail = {"timesteps": nt, "freq": freq, "window": w, "horizon": h, "series": sorted(dfs), "definition": str(over)[:1500]}
    b.context = detail
    inputs = m.inputs.copy(deep=True)
    ts = m.inputs.timesteps.copy(deep=True)
    shadow = ["system_balance"] if rng.random() < 0.5 else []
    try:
        m.build(operate={"window": f"{w}h", "horizon": f"{h}h"})
        m.config = m.config.update({"solve.shadow_prices": shadow, "solve.solver": "glpk" if shadow else "cbc"})
        recs = run(b, m, W, "", holes)
    except Exception as e:
        import traceback

        if shadow and isinstance(e, IndexError):
            return  # glpk without a solution

        b.check("operate mode solves", False, {**detail, "error": repr(e)[:300], "at": traceback.format_exc()[-600:]})
        return
    if any(not r for _, r in recs):
        return  # infeasible window
    thr = m.config.solve.zero_threshold
    got = m.results
    b.check("every timestep exactly once and in order", list(got.timesteps.values) == list(ts.values), detail)
    compare_results(b, got, recs, W, thr)
    if shadow:
        b.check("requested shadow prices come with every window", "shadow_price_system_balance" in got and all("shadow_price_system_balance" in r for _, r in recs), detail)
    for v in inputs.data_vars:
        b.check("inputs keep their values", inputs[v].equals(m.inputs[v].drop_vars(["windowsteps", "horizonsteps"], errors="ignore")), {**detail, "input": v})
    # again
    first = got.copy(deep=True)
    try:
        recs2 = run(b, m, W, "solved again, ", holes)
    except Exception as e:
        b.check("solving again works", False, {**detail, "error": repr(e)[:300]})
        return
    b.check("solving again gives the same results", first.equals(m.results) or all(
        v in m.results and np.allclose(np.asarray(first[v].values, float), np.asarray(m.results[v].values, float), atol=1e-6, equal_nan=True)
        for v in first.data_vars if first[v].dtype.kind == "f") and set(first.data_vars) == set(m.results.data_vars), {**detail, "missing": sorted(set(first.data_vars) ^ set(m.results.data_vars))})
    if rng.random() < 0.4:
        w2 = rng.choice([x for x in (1, 2, 3, 6) if x * step != w]) * step
        try:
            m.build(force=True, operate={"window": f"{w2}h", "horizon": f"{2 * w2}h"})
            W2 = windows(ts.values, f"{w2}h", f"{2 * w2}h")
            recs3 = run(b, m, W2, "with another window, ", holes)
        except Exception as e:
            b.check("building again with another window works", False, {**detail, "window 2": w2, "error": repr(e)[:300]})
            return
        if all(r for _, r in recs3):
            b.check("every timestep exactly once and in order", list(m.results.timesteps.values) == list(ts.values), detail)
            compare_results(b, m.results, recs3, W2, thr)


# ---------------------------------------------------------------- proofs


@contract("C12", targets=["model.Model._recalculate_storage_initial"])
def next_initial_storage(h):
    """The next window starts from the storage at the end of the part kept, as a share of a positive capacity; else there is no value."""
    import calliope.model as mod

    has(mod.Model, "_recalculate_storage_initial")
    nodes, techs, ts = h.dim("nodes"), h.dim("techs"), h.dim("timesteps", kind="M")
    stor = h.array("storage", [nodes, techs, ts], "f", null=True)
    cap = h.array("storage_cap", [nodes, techs], "f", null=True)
    m = mod.Model.__new__(mod.Model)
    m.inputs = h.dataset([cap], [nodes, techs])
    with h.patch(mod):
        got = attempt(h, m._recalculate_storage_initial, h.dataset([stor], [nodes, techs, ts]))
    if isinstance(got, Raised):
        h.prove("does not raise", False)
        return
    h.prove("no timesteps are left", set(got.dims) == {"nodes", "techs"})

    def want(env):
        s, c = h.cell(stor, {**env, "timesteps": last(h, ts)}), h.cell(cap, env)
        pos = And(Not(c.null), c.val > 0)
        return c_ite(pos, c_div(s, c_ite(pos, c, const_cell(1.0))), const_cell(float("nan")))

    h.prove("share of the capacity at the last timestep", h.forall([nodes, techs], lambda env: same(h.cell(got, env), want(env))))


def last(h, D):
    import z3

    return z3.IntVal(D.n - 1) if isinstance(D.n, int) else D.n - 1


@contract("C12", targets=["model.Model._has_new_missing_values"])
def missing_values_detected(h):
    """The problem is built again exactly when a time-dependent input has no value where the previous window had one."""
    import calliope.model as mod

    has(mod.Model, "_has_new_missing_values")
    nodes, ts = h.dim("nodes"), h.dim("timesteps", kind="M")
    new, old = [], []
    for n, dims in (("p", [nodes, ts]), ("q", [ts]), ("s", [nodes])):
        new.append(h.array(n, dims, "f", null=True))
        old.append(h.array(n + "_before", dims, "f", null=True))
    known = h.choose("inputs of the problem", [("p", "q", "s"), ("p", "s"), ()])
    m = mod.Model.__new__(mod.Model)
    before = h.dataset([], [nodes, ts])
    for a, o in zip(new, old):
        if a.name in known:
            before[a.name] = o
    m.backend = Only(inputs=before)
    with h.patch(mod):
        got = attempt(h, m._has_new_missing_values, h.dataset(new, [nodes, ts]))
    if isinstance(got, Raised):
        h.prove("does not raise", False)
        return
    lost = []
    for a, o, dims in zip(new, old, ([nodes, ts], [ts], [nodes])):
        if a.name in known and ts in dims:
            gone = parr(dims, lambda env, a=a, o=o: Cell("b", And(h.cell(a, env).null, Not(h.cell(o, env).null))), "b").any()
            lost.append(h.cell(gone, {}).val)
    h.prove("new missing values are reported exactly when there are any", Iff(got, Or(*lost) if lost else False))
