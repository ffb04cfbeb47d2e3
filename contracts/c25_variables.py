"""C25: decision variables: bounds, domain, existence, defaults; fixing and bound changes touch only what is asked."""
import numpy as np

from dv.registry import bounded, contract

from . import c11_update, mini, randmath as Q, refmath as R


def _bounds_api(b, m, ref, tag=""):
    for n in ref.bounds:
        if n not in m.backend.variables:
            continue
        want = ref.results[n]
        if not want.dims and not want.data:
            continue
        ds = m.backend.get_variable_bounds(n)
        for side, i in (("lb", 0), ("ub", 1)):
            got = R.cells(R.transposed(ds[side], want.dims))
            bad = []
            for k in want.data:
                w = ref.bounds[n][k]
                if ref.domains[n] == "binary":
                    continue
                if not R.close(R.unbounded(got.get(k)), w[i]):
                    bad.append((k, got.get(k), w[i]))
            bad += [(k, "reported where no variable exists") for k in got if k not in want.data]
            b.check(f"{tag}get_variable_bounds({n}).{side}", not bad, str(bad[:3]))


@bounded("C25", targets=["backend_model.BackendModelGenerator.add_variable", "backend_model.BackendModel._get_variable_bound",
                         "pyomo_backend_model.PyomoBackendModel._add_variable", "pyomo_backend_model.PyomoBackendModel._to_pyomo_variable",
                         "pyomo_backend_model.PyomoBackendModel.get_variable_bounds"], trials=12, shards=4, budget_s=300)
def random_variables(b):
    """Random variables (numeric and input-valued bounds, integer or real, sparse data): existence, bounds, domain, defaults in expressions."""
    m = Q.model(b.rng)
    acc = Q.acceptor(m)
    for _ in range(3):
        comps, _r = Q.random_math(b.rng, acc, nvar=6, nexp=3, ncon=1)
        if not comps["objectives"]:
            continue
        Q.set_math(m, comps)
        ref = R.reference(m)
        b.case(sorted((n, str(v["bounds"]), v.get("domain")) for n, v in comps["variables"].items()))
        try:
            m.build(force=True)
        except Exception as e:
            b.check("a well-formed formulation builds", False, {"error": repr(e)[:400]})
            continue
        R.compare(b, m, ref)
        _bounds_api(b, m, ref)
        for n in ref.bounds:
            if n in m.backend.variables:
                want = ref.results[n]
                got = {k for k, v in R.cells(R.transposed(m.backend.get_variable(n), want.dims)).items()}
                b.check(f"get_variable({n}) exists at exactly its indices", got == set(want.data))


@bounded("C25", targets=["model.Model.build"], trials=4, shards=4, budget_s=300)
def base_variables(b):
    """Variables of the base formulation on a random model, and their reported values' indices after solving."""
    m, over = mini.random_model(b.rng)
    if b.rng.random() < 0.5:
        over = mini.merge(over, {"techs": {"chp": {"integer_dispatch": True, "cap_method": "integer", "purchased_units_max": 4, "flow_cap_per_unit": {"data": 5, "index": "electricity", "dims": "carriers"}, "flow_cap_max": None}}})
        over = mini.merge(over, {"config": {"init": {"extra_math": ["milp"]}}})
        m = mini.model(over, nt=3)
    m.build()
    ref = R.reference(m)
    b.case(sorted(over["techs"]))
    R.compare(b, m, ref, what=("variables", "bounds"))
    _bounds_api(b, m, ref)
    m.solve()
    if m.runtime.termination_condition == "optimal":
        for n in ref.bounds:
            want = ref.results[n]
            got = set(R.cells(R.transposed(m.results[n], want.dims))) if n in m.results else set()
            b.check(f"results[{n}] at exactly the indices where the variable exists", got == set(want.data), str(sorted(got ^ set(want.data), key=str)[:3]))
            if ref.domains[n] != "real" and n in m.results:
                v = m.results[n].values
                v = v[~np.isnan(v)]
                b.check(f"{n} is integer in the solution", bool(np.all(np.abs(v - np.round(v)) < 1e-5)))


bounded("C25", targets=["pyomo_backend_model.PyomoBackendModel.update_variable_bounds"], trials=8, shards=4, budget_s=200)(c11_update.bound_updates)
bounded("C25", targets=["pyomo_backend_model.PyomoBackendModel.fix_variable", "pyomo_backend_model.PyomoBackendModel.unfix_variable"],
        trials=8, shards=4, budget_s=200)(c11_update.fixing)
