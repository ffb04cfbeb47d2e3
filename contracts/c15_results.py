"""C15: results post-processing."""
import numpy as np

from dv.arr import Cell, c_lt, const_cell
from dv.core import And, Iff, Implies, Not, Or
from dv.harness import Raised, same
from dv.registry import bounded, contract


def _model():
    from calliope import model

    return model


@contract("C15", targets=["calliope.model.Model._apply_zero_threshold"])
def zero_threshold(h):
    """Exactly the values with magnitude below the threshold become zero, in every array."""
    m = _model()
    d1, d2 = h.dim("nodes"), h.dim("techs")
    a = h.array("flow_cap", [d1, d2], "f", null=True, inf=True)
    b = h.array("cost", [d2], "f", null=True, inf=True)
    t = h.real("threshold")
    h.assume(h.spec(t).at({}).val >= 0)
    ds = h.dataset([a, b], [d1, d2])
    with h.patch(m):
        res = h.call(m.Model._apply_zero_threshold, ds, t)
    if isinstance(res, Raised):
        h.prove("does not raise", False)
        return
    thr = h.spec(t).at({}).val

    def expect(c):
        below = And(c.finite, c.val < thr, -thr < c.val)
        from dv.arr import c_ite
        return c_ite(below, Cell("f", const_cell(0.0).val), c)

    for name, src, dims in [("flow_cap", a, [d1, d2]), ("cost", b, [d2])]:
        h.prove(f"{name} present", name in res)
        h.prove(f"{name}: sub-threshold values zeroed, all others unchanged",
                h.forall(dims, lambda env: same(h.cell(res[name], env), expect(h.cell(src, env)))))
    h.prove("no arrays added", set(res.data_vars) == {"flow_cap", "cost"})


@contract("C15", targets=["calliope.model.Model._apply_zero_threshold"])
def zero_threshold_scalars(h):
    """Dimensionless results are treated like every other array."""
    m = _model()
    d1 = h.dim("nodes")
    a = h.array("objective", [], "f", null=True, inf=True)
    b = h.array("cost", [d1], "f", null=True, inf=True)
    t = h.real("threshold")
    h.assume(h.spec(t).at({}).val >= 0)
    ds = h.dataset([a, b], [d1])
    with h.patch(m):
        res = h.call(m.Model._apply_zero_threshold, ds, t)
    if isinstance(res, Raised):
        h.prove("does not raise", False)
        return
    thr = h.spec(t).at({}).val
    from dv.arr import c_ite

    def expect(c):
        return c_ite(And(c.finite, c.val < thr, -thr < c.val), Cell("f", const_cell(0.0).val), c)

    h.prove("the dimensionless value is zeroed exactly when below the threshold", same(h.cell(res["objective"], {}), expect(h.cell(a, {}))))
    h.prove("the indexed array likewise", h.forall([d1], lambda env: same(h.cell(res["cost"], env), expect(h.cell(b, env)))))


# ---------------------------------------------------------------- bounded: the reported values on the real backend


def _solver_values(be):
    """{name: {index: value}} read from the solver objects themselves."""
    from pyomo.core.expr.numvalue import value

    from . import refmath as R

    out = {}
    for n, da in be.variables.data_vars.items():
        out[n] = (da.dims, {k: v.value for k, v in R.cells(da).items()})
    for n, da in be.global_expressions.data_vars.items():
        out[n] = (da.dims, {k: float(value(v)) for k, v in R.cells(da).items()})
    for n, da in be.objectives.data_vars.items():
        out[n] = (da.dims, {k: float(value(v.expr)) for k, v in R.cells(da).items()})
    return out


def _compare_results(b, ds, want, thr, tag=""):
    from . import refmath as R

    for n, (dims, vals) in want.items():
        vals = {k: v for k, v in vals.items() if v is not None and not np.isnan(v)}
        if not vals:
            b.check(f"{tag}{n}: nothing reported for an unbuilt component", n not in ds)
            continue
        if not b.check(f"{tag}{n} is reported", n in ds):
            continue
        da = ds[n]
        if not b.check(f"{tag}{n} keeps its dimensions", set(da.dims) == set(dims), (da.dims, dims)):
            continue
        got = R.cells(da.transpose(*dims))
        b.check(f"{tag}{n} is reported exactly where it was built", set(got) == set(vals), {"missing": str(sorted(set(vals) - set(got), key=str)[:3]), "extra": str(sorted(set(got) - set(vals), key=str)[:3])})
        bad = []
        for k in set(got) & set(vals):
            w = 0.0 if abs(vals[k]) < thr else vals[k]
            if not (got[k] == w or abs(got[k] - w) <= 1e-9 * max(1.0, abs(w))):
                bad.append((k, got[k], vals[k]))
        b.check(f"{tag}{n} is the solver's value", not bad, str(bad[:3]))


@bounded("C15", targets=["backend_model.BackendModel.load_results", "pyomo_backend_model.PyomoBackendModel.get_variable",
                         "pyomo_backend_model.PyomoBackendModel._from_pyomo_expr"], trials=8, shards=4, budget_s=200)
def loaded_values(b):
    """With arbitrary values in the solver's variables, the results are those values and what the expressions evaluate to."""
    from . import randmath as Q
    from . import refmath as R

    m = Q.model(b.rng)
    acc = Q.acceptor(m)
    for _ in range(2):
        comps, _r = Q.random_math(b.rng, acc)
        if not comps["objectives"]:
            continue
        Q.set_math(m, comps)
        try:
            m.build(force=True)
            ref = R.reference(m)
        except Exception:
            continue
        b.case(sorted(comps["variables"]))
        val = {}
        for n, da in m.backend.variables.data_vars.items():
            if n not in ref.results:
                continue
            tda = R.transposed(da, ref.results[n].dims)
            for k, v in R.cells(tda).items():
                x = b.rng.choice([0.0, 1e-12, -1e-12, 0.5, -3.25, 1e6, b.rng.uniform(-5, 5)])
                v.set_value(x, skip_validation=True)
                val[n, k] = x
        ds = m.backend.load_results(False)
        want = {}
        for n, a in ref.results.items():
            if n in ref.bounds:
                want[n] = (a.dims, {k: val[n, k] for k in a.data})
            else:
                want[n] = (a.dims, {k: _pval(p, val) for k, p in a.data.items()})
        for n, a in ref.objectives.items():
            want[n] = (a.dims, {k: _pval(p, val) for k, p in a.data.items()})
        _compare_results(b, ds, want, 0.0)
        b.check("nothing else is reported", set(ds.data_vars) <= set(want), sorted(set(ds.data_vars) - set(want)))


def _pval(p, val):
    from . import refmath as R

    out = 0.0
    for mono, c in R.Poly.of(p).t.items():
        for v in mono:
            c *= val[v]
        out += c
    return out


@bounded("C15", targets=["model.Model.solve", "pyomo_backend_model.PyomoBackendModel._solve", "backend_model.ShadowPrices.track_constraints"], trials=8, shards=4, budget_s=250)
def solved_values(b):
    """After a solve: every result equals the solver's value, thresholded; shadow prices and post-processing only on request."""
    from . import mini
    from . import refmath as R

    m, over = mini.random_model(b.rng, nt=3)
    m.build()
    prev = None
    for _ in range(3):
        thr = b.rng.choice([1e-10, 0.0, 0.5, 2.0, 1e9])
        solver = b.rng.choice(["cbc", "glpk", "glpk"])
        duals = b.rng.choice([[], ["system_balance"], ["system_balance", "balance_demand"], ["no_such_constraint"]])
        post = b.rng.random() < 0.5
        if prev:
            m.backend.update_input("sink_use_equals", m.inputs.sink_use_equals * b.rng.choice([0.5, 0.75, 0.9]))
        try:
            m.solve(force=bool(prev), zero_threshold=thr, solver=solver, shadow_prices=duals, postprocessing_active=post)
        except IndexError:
            return  # pyomo reports "other" with no solution when glpk's presolve finds the problem infeasible
        prev = True
        if m.runtime.termination_condition != "optimal":
            b.check("no values without a solution", not m.results.data_vars)
            continue
        b.case(f"{thr} {solver} {duals} {post}")
        want = _solver_values(m.backend)
        _compare_results(b, m.results, want, thr, "solved ")
        sp = {n for n in m.results.data_vars if n.startswith("shadow_price_")}
        ok = [d for d in duals if d in m.backend.constraints] if solver == "glpk" else []
        if not m.backend.has_integer_or_binary_variables:
            b.check("shadow prices exactly as requested", sp == {f"shadow_price_{d}" for d in ok}, (sorted(sp), solver, duals))
        for d in ok:
            if f"shadow_price_{d}" in m.results:
                da = m.backend.constraints[d]
                w = {k: m.backend._instance.dual.get(c) for k, c in R.cells(da).items()}
                _compare_results(b, m.results, {f"shadow_price_{d}": (da.dims, w)}, thr, "dual ")
        post_names = {n for n in m.math.build.postprocessed.root}
        rest = set(m.results.data_vars) - set(want) - sp
        b.check("post-processed arrays only on request", rest <= (post_names if post else set()), sorted(rest))
        if post:
            b.check("post-processed arrays when requested", "total_generation" in rest, sorted(rest))


@bounded("C15", targets=["pyomo_backend_model.PyomoBackendModel._solve"], trials=1, budget_s=100)
def no_solution_no_values(b):
    """An infeasible problem yields no values, also when earlier results existed."""
    from . import mini

    m = mini.model({"config": {"build": {"ensure_feasibility": False}}}, nt=3)
    m.build()
    m.solve()
    b.case("infeasible")
    had = bool(m.results.data_vars)
    m.backend.update_input("sink_use_equals", m.inputs.sink_use_equals * 1000)
    m.solve(force=True)
    b.check("a feasible model has results first", had)
    b.check("no stale values after an infeasible solve", not m.results.data_vars, list(m.results.data_vars)[:5])
    b.check("the termination condition says so", m.runtime.termination_condition != "optimal", m.runtime.termination_condition)
