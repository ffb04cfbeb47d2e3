"""C11: changing data on a built model equals building with the changed data."""
import math
import re

import numpy as np
import xarray as xr

from dv.registry import bounded, contract

from . import mini, randmath as Q, refmath as R, upd


def _strings(comps):
    """All where strings of the math."""
    out = []

    def rec(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == "where" and isinstance(v, str):
                    out.append(v)
                else:
                    rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)

    rec(comps)
    return out


def _compared(name, wheres):
    """Value-dependent use in a condition (a comparison or a helper call)."""
    return any(re.search(rf"\b{name}\b\s*(==|!=|<|>)", w) or re.search(rf"\(\s*{name}\b", w) for w in wheres)


def _bare(name, wheres):
    return any(re.search(rf"\b{name}\b", w) for w in wheres)


def _known_gap(inputs, name, meaning, wheres, lookups):
    """The recorded finding: a value-only update of an input whose value a condition depends on does not rebuild."""
    if name in lookups or not _bare(name, wheres):
        return False
    old = inputs.get(name, xr.DataArray(np.nan))
    dims, vals = meaning
    od = upd.as_dict(old)
    defines = any(d not in old.dims for d in dims)
    inf = False
    for ix in np.ndindex(*old.shape):
        env = {d: old[d].values[i] for d, i in zip(old.dims, ix)}
        o = od[tuple(env[d] for d in old.dims)]
        if all(d in env for d in dims):
            n = vals.get(tuple(env[d] for d in dims))
            if n is not None:
                defines = defines or o is None
                inf = inf or (o is not None and math.isinf(float(o)) != math.isinf(float(n)))
    if defines:
        return False
    return inf or _compared(name, wheres)


@bounded("C11", targets=["backend_model.BackendModel._update_input", "pyomo_backend_model.PyomoBackendModel.update_input",
                         "backend_model.BackendModel._rebuild_references", "backend_model.BackendModel._find_all_references"],
         trials=16, shards=4, budget_s=400)
def updates_equal_a_fresh_build(b):
    """Random math, random updates (full, partial, label subsets, fewer dims, scalars, newly defined): same problem as a fresh build."""
    m = Q.model(b.rng)
    acc = Q.acceptor(m)
    base_inputs = m.inputs.copy(deep=True)
    for _ in range(2):
        comps, _rej = Q.random_math(b.rng, acc)
        if not comps["objectives"]:
            continue
        Q.set_math(m, comps)
        wheres = _strings(comps)
        try:
            m.build(force=True)
        except Exception:
            continue  # decided under C08
        inputs = base_inputs.copy(deep=True)
        text = str(comps)
        names = [n for n in [*Q.PARAMS, *Q.LOOKUPS, "r_undef"] if re.search(rf"\b{n}\b", text)]
        if not names:
            continue
        for step in range(3):
            n = b.rng.choice(names)
            lk = n in Q.LOOKUPS
            dims = {**Q.PARAMS, **Q.LOOKUPS, "r_undef": ()}[n]
            if n in inputs:
                dims = inputs[n].dims
            if lk:
                value = (lambda: b.rng.random() < 0.5) if n == "lb_nt" else (lambda: b.rng.choice(["x", "y"]))
            else:
                value = lambda: b.rng.choice([0, 1, 2, 3, 0.5])
            give, meaning, how = upd.random_update(b.rng, inputs, n, dims, value)
            if not meaning[1] or _known_gap(inputs, n, meaning, wheres, Q.LOOKUPS):
                continue
            old = None
            if n not in inputs:
                old = xr.DataArray(np.nan)
                if n == "lb_nt":
                    old = xr.DataArray(False)
            want = inputs.copy()
            want[n] = upd.merged(inputs, n, meaning, old)
            try:
                ref = R.Ref(want, R.plain_math(m), m.config.build).build()
            except (R.Overlap, R.Incomplete, R.Unsupported, KeyError, ValueError, TypeError, ZeroDivisionError):
                break
            if any(Q.bad_coef(x, R) for k, a in ref.results.items() if k not in ref.bounds for x in a.data.values()) or any(
                    Q.bad_coef(x, R) or Q.bad_coef(y, R) or not Q.is_var(R.padd(x, y, -1.0), R) for c in ref.constraints.values() for _, x, y in c.data.values()):
                break
            b.case(f"{n}: {how}")
            try:
                m.backend.update_input(n, give)
            except Exception as e:
                b.check("an update with valid values is applied", False, {"input": n, "how": how, "error": repr(e)[:300], "math": text[:2000]})
                break
            inputs = want
            R.compare(b, m, ref, tag=f"after updating inputs ")


BASE = {"flow_cap_max": [5.0, 9.0, 20.0], "flow_out_eff": [0.5, 0.75, 0.9], "sink_use_equals": [1.0, 2.5], "source_use_max": [0.2, 3.0], "storage_loss": [0.0, 0.05],
        "cost_flow_cap": [0.5, 2.0], "cost_om_annual": [0.1], "flow_in_eff": [0.9], "storage_initial": [0.25, 0.5], "cost_flow_in": [0.3], "flow_ramping": [0.4],
        "cost_source_use": [0.7], "flow_cap_min": [0.5, 1.0], "bigM": [500.0], "objective_cost_weights": [2.0], "storage_cap_max": [9.0]}


@bounded("C11", targets=["backend_model.BackendModel._update_input", "pyomo_backend_model.PyomoBackendModel.update_input"], trials=4, shards=4, budget_s=300)
def base_formulation_updates(b):
    """The same for the base formulation on a random model and its own inputs."""
    m, over = mini.random_model(b.rng, nt=3)
    m.build()
    inputs = m.inputs.copy(deep=True)
    skip = set()
    for n in b.rng.sample(sorted(BASE), 4):
        dims = inputs[n].dims if n in inputs else ("techs",) if n not in ("bigM",) else ()
        if n in ("cost_om_annual", "cost_flow_cap", "cost_flow_in", "cost_source_use") and n not in inputs:
            dims = ("techs", "costs")
        give, meaning, how = upd.random_update(b.rng, inputs, n, dims, lambda: b.rng.choice(BASE[n]))
        old = None if n in inputs else xr.DataArray(np.nan)
        if not meaning[1] or (old is None and not np.isfinite(inputs[n].fillna(0).values.astype(float)).all()):
            continue
        want = inputs.copy()
        want[n] = upd.merged(inputs, n, meaning, old)
        try:
            ref = R.reference(m, inputs=want)
        except R.Incomplete:
            continue
        b.case(f"{n}: {how}")
        try:
            m.backend.update_input(n, give)
        except Exception as e:
            b.check("an update with valid values is applied", False, {"input": n, "how": how, "error": repr(e)[:300]})
            return
        inputs = want
        R.compare(b, m, ref, tag=f"after updating inputs ")


def _vars(m, name):
    return R.cells(m.backend.variables[name])


@bounded("C11", targets=["pyomo_backend_model.PyomoBackendModel.update_variable_bounds"], trials=8, shards=4, budget_s=200)
def bound_updates(b):
    """Bounds given for some indices replace exactly those; everything else of the problem stays."""
    m = Q.model(b.rng)
    acc = Q.acceptor(m)
    comps, _ = Q.random_math(b.rng, acc)
    if not comps["objectives"]:
        return
    Q.set_math(m, comps)
    try:
        m.build(force=True)
    except Exception:
        return
    ref = R.Ref(m.inputs, R.plain_math(m), m.config.build).build()
    for _ in range(4):
        name = b.rng.choice([v for v in ref.bounds])
        side = b.rng.choice(["min", "max"])
        da = m.backend.variables[name]
        give, (dims, vals), how = upd.random_update(b.rng, m.inputs, name, da.dims, lambda: b.rng.choice([0.0, 1.0, 2.0, 4.0]))
        declared = comps["variables"][name]["bounds"][side]
        try:
            m.backend.update_variable_bounds(name, **{side: give})
            err = None
        except Exception as e:
            err = e
        b.case(f"{side} {how}")
        if isinstance(declared, str):
            from calliope.exceptions import BackendError

            b.check("bounds set by an input are refused", isinstance(err, BackendError), repr(err)[:200])
            continue
        if err is not None:
            b.check("new bounds are applied", False, {"how": how, "error": repr(err)[:300]})
            return
        ref_dims = ref.results[name].dims
        for k in ref.bounds[name]:
            env = dict(zip(ref_dims, k))
            v = vals.get(tuple(_plain(env[d]) for d in dims)) if all(d in env for d in dims) else None
            if v is not None:
                lo, up = ref.bounds[name][k]
                ref.bounds[name][k] = (v, up) if side == "min" else (lo, v)
        R.compare(b, m, ref, tag="after updating bounds ")


def _plain(x):
    return x.to_datetime64() if hasattr(x, "to_datetime64") else x


@bounded("C11", targets=["pyomo_backend_model.PyomoBackendModel.fix_variable", "pyomo_backend_model.PyomoBackendModel.unfix_variable"], trials=8, shards=4, budget_s=200)
def fixing(b):
    """Fixing pins exactly the requested entries at their current values; unfixing frees them; fixing again uses the new values."""
    m = Q.model(b.rng)
    acc = Q.acceptor(m)
    comps, _ = Q.random_math(b.rng, acc, nexp=1, ncon=1)
    if not comps["objectives"]:
        return
    Q.set_math(m, comps)
    try:
        m.build(force=True)
    except Exception:
        return
    state = {}
    names = list(m.backend.variables.data_vars)
    for n in names:
        for k, v in _vars(m, n).items():
            state[n, k] = None
            v.set_value(b.rng.choice([0.0, 1.0, 2.5]), skip_validation=True)
    for _ in range(6):
        n = b.rng.choice(names)
        da = m.backend.variables[n]
        op = b.rng.choice(["fix", "fix", "unfix"])
        kw, sel = {}, lambda env: True
        if b.rng.random() < 0.8 and da.dims:
            flt = b.rng.random() < 0.4
            give, (dims, vals), how = upd.random_update(b.rng, m.inputs, n, da.dims, (lambda: 1.0) if flt else (lambda: b.rng.random() < 0.5))
            if isinstance(give, (bool, float)):
                give = xr.DataArray(give)
            kw["where"] = give
            sel = lambda env: bool(vals.get(tuple(_plain(env[d]) for d in dims), False))
            b.case(f"{op} {how}")
        for k, v in _vars(m, n).items():
            if state[n, k] is None and b.rng.random() < 0.3:
                v.set_value(b.rng.choice([0.0, 1.5, 3.0]), skip_validation=True)
        values = {k: v.value for k, v in _vars(m, n).items()}
        try:
            getattr(m.backend, op + "_variable")(n, **kw)
        except Exception as e:
            b.check(f"{op} is applied", False, {"where": str(kw)[:300], "error": repr(e)[:300]})
            return
        for k in _vars(m, n):
            if sel(dict(zip(da.dims, k))):
                state[n, k] = values[k] if op == "fix" else None
        bad = []
        for (vn, k), want in state.items():
            v = _vars(m, vn)[k] if vn == n else None
            if v is not None and (v.fixed != (want is not None) or (want is not None and v.value != want) or v.value != values[k]):
                bad.append((vn, k, v.fixed, v.value, want))
        b.check("exactly the requested entries are fixed, at their current values", not bad, str(bad[:3]))


@bounded("C11", targets=["model.Model.solve", "pyomo_backend_model.PyomoBackendModel.fix_variable"], trials=2, shards=2, budget_s=200)
def fixed_then_solved(b):
    """Solving with fixed capacities keeps them; after unfixing and an input change the optimum is the fresh one."""
    import calliope

    over = mini.vary(b.rng)
    m = mini.model(over, nt=4)
    m.build()
    m.solve()
    if "flow_cap" not in m.results:
        return
    b.case("solve")
    cap = m.results.flow_cap.copy()
    m.backend.fix_variable("flow_cap")
    m.backend.update_input("cost_flow_cap", xr.DataArray([9.0], coords={"techs": ["pv"]}))
    m.solve(force=True)
    if "flow_cap" not in m.results:
        return
    b.check("fixed variables keep their values", bool(np.allclose(m.results.flow_cap.fillna(-1), cap.fillna(-1), atol=1e-6)))
    m.backend.unfix_variable("flow_cap")
    m.solve(force=True)
    over2 = mini.merge(over, {"techs": {"pv": {"cost_flow_cap": mini.cost(9.0)}}})
    m2 = mini.model(over2, nt=4)
    m2.build()
    m2.solve()
    if "min_cost_optimisation" in m.results and "min_cost_optimisation" in m2.results:
        o1, o2 = float(m.results.min_cost_optimisation), float(m2.results.min_cost_optimisation)
        b.check("after unfixing and re-solving the optimum is that of a fresh build", abs(o1 - o2) <= 1e-5 * max(1, abs(o2)), (o1, o2))


@bounded("C11", targets=["backend_model.BackendModel._update_input"], trials=1)
def recorded_findings(b):
    """The recorded findings, each on its own input."""
    defs = {"data_definitions": {"p_new": {"data": [2, 0], "index": ["pv", "gas"], "dims": "techs"}, "q_new": {"data": [3, 3], "index": ["pv", "gas"], "dims": "techs"}}}
    math = {"parameters": {"p_new": {"default": 1}, "q_new": {"default": 7}},
            "variables": {"v_cmp": {"foreach": ["techs"], "where": "p_new>1", "bounds": {"min": 0, "max": 5}, "default": 0},
                          "v_bnd": {"foreach": ["techs"], "where": "p_new", "bounds": {"min": 0, "max": "q_new"}, "default": 0}}}
    m = mini.model(defs, nt=3, math=math)
    m.build()
    b.case("findings")
    m.backend.update_input("p_new", xr.DataArray([0.0, 2.0], coords={"techs": ["pv", "gas"]}))
    have = {k[0] for k in _vars(m, "v_cmp")} if "v_cmp" in m.backend.variables else set()
    if have != {"gas"}:
        b.check("only the recorded staleness", have == {"pv"}, have)
        b.known.append("stale-condition")
    m.backend.update_variable_bounds("v_bnd", min=1.0)
    for v in _vars(m, "v_bnd").values():
        v.set_value(2.0)
    m.backend.fix_variable("v_bnd")
    m.backend.update_input("q_new", xr.DataArray([4.0], coords={"techs": ["battery"]}))  # newly defined entry: v_bnd is rebuilt
    after = _vars(m, "v_bnd")
    if not all(v.lb == 1.0 for v in after.values()):
        b.check("only the recorded loss of bounds", all(v.lb == 0 for v in after.values()))
        b.known.append("bounds-lost-on-rebuild")
    if not all(v.fixed for v in after.values()):
        b.check("only the recorded loss of fixing", not any(v.fixed for v in after.values()))
        b.known.append("fix-lost-on-rebuild")
