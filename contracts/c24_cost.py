"""C24: costs and the objective of the base formulation."""
from . import real
from .base import C, K, N, T, TS, comp, register

NTK, NTCK, NTKS = [N, T, K], [N, T, C, K], [N, T, K, TS]
G = "global_expressions"
VOM = "cost_export cost_flow_in cost_flow_out cost_source_use".split()


def some(S, names, e):
    return S.Or(*[S.has(n, e) for n in names])


def any_step(S, names, e):
    if hasattr(S, "W"):
        return S.W.d[TS].exists(lambda i: some(S, names, {**e, TS: i}))
    return any(some(S, names, {**e, TS: i}) for i in range(len(S.labels[TS])))


def variable_cost(S, e):
    s = lambda key, a, b: S.sum(key, [C], lambda x: S.v(a, x) * S.v(b, x), e)
    consumption = S.cases((S.is_("base_tech", "supply", e), S.v("cost_source_use", e) * S.v("source_use", e)), (True, s("in", "cost_flow_in", "flow_in")))
    return S.v("timestep_weights", e) * (s("exp", "cost_export", "flow_export") + s("out", "cost_flow_out", "flow_out") + consumption)


comp("C24", G, "cost_operation_variable", NTKS, lambda S, e: some(S, VOM, e), variable_cost,
     "base_tech timestep_weights flow_export flow_in flow_out source_use " + " ".join(VOM),
     [{}, {"absent": "cost_export flow_export"}, {"low": "cost_flow_in cost_flow_out cost_source_use", "absent": "cost_export"}, {"absent": "cost_flow_in cost_flow_out"}], budget=30)

comp("C24", G, "cost_investment_flow_cap", NTCK,
     lambda S, e: S.And(S.has("flow_cap", e), some(S, ["cost_flow_cap", "cost_flow_cap_per_distance"], e)),
     lambda S, e: S.cases((S.is_("base_tech", "transmission", e),
                           (S.v("cost_flow_cap", e) + S.v("cost_flow_cap_per_distance", e) * S.v("distance", e)) * S.v("flow_cap", e) * 0.5),
                          (True, S.v("cost_flow_cap", e) * S.v("flow_cap", e))),
     "base_tech flow_cap cost_flow_cap cost_flow_cap_per_distance distance", [{}, {"absent": "cost_flow_cap_per_distance distance"}, {"absent": "cost_flow_cap"}])

for _n in ("storage_cap", "source_cap", "area_use"):
    comp("C24", G, f"cost_investment_{_n}", NTK, lambda S, e, n=_n: S.And(S.has(n, e), S.has(f"cost_{n}", e)),
         lambda S, e, n=_n: S.v(n, e) * S.v(f"cost_{n}", e), f"{_n} cost_{_n}", [{}, {"absent": f"cost_{_n}"}, {"absent": _n}])

PARTS = ["cost_investment_storage_cap", "cost_investment_source_cap", "cost_investment_area_use"]
comp("C24", G, "cost_investment", NTK, lambda S, e: some(S, ["cost_investment_flow_cap", *PARTS], {**e}),
     lambda S, e: S.sum("cap", [C], lambda x: S.v("cost_investment_flow_cap", x), e) + S.v(PARTS[0], e) + S.v(PARTS[1], e) + S.v(PARTS[2], e),
     "cost_investment_flow_cap " + " ".join(PARTS), [{}, {"absent": "cost_investment_storage_cap"}, {"absent": "cost_investment_flow_cap cost_investment_area_use"}])


def year_share(S, e):
    return S.sum("hours", [TS], lambda x: S.v("timestep_resolution", x) * S.v("timestep_weights", x), {}) / 8760


def annuity(S, e):
    r, n = S.v("cost_interest_rate", e), S.v("lifetime", e)
    dep = S.has("cost_depreciation_rate", e)
    none = S.Or(S.Not(S.has("cost_interest_rate", e)), S.cmp("cost_interest_rate", "==", 0, e))
    return S.cases((dep, S.v("cost_depreciation_rate", e)), (none, 1 / n), (True, r * (1 + r) ** n / ((1 + r) ** n - 1)))


def rated(S, e):
    """An annuity is defined: a given rate, or an interest rate that is absent or not negative."""
    return S.Or(S.has("cost_depreciation_rate", e), S.Not(S.has("cost_interest_rate", e)), S.cmp("cost_interest_rate", ">=", 0, e))


comp("C24", G, "cost_investment_annualised", NTK, lambda S, e: S.And(S.has("cost_investment", e), rated(S, e)),
     lambda S, e: year_share(S, e) * annuity(S, e) * S.v("cost_investment", e),
     "cost_investment timestep_resolution timestep_weights cost_depreciation_rate cost_interest_rate lifetime",
     [{}, {"absent": "cost_depreciation_rate"}, {"absent": "cost_depreciation_rate cost_interest_rate lifetime"}], budget=60)

comp("C24", G, "cost_operation_fixed", NTK,
     lambda S, e: S.Or(S.And(S.has("cost_om_annual", e), S.has("flow_cap", e)),
                       S.And(S.has("cost_investment", e), S.has("cost_om_annual_investment_fraction", e))),
     lambda S, e: year_share(S, e) * (S.sum("om", [C], lambda x: S.v("cost_om_annual", x) * S.v("flow_cap", x), e)
                                      + S.v("cost_investment", e) * S.v("cost_om_annual_investment_fraction", e)),
     "cost_om_annual flow_cap cost_investment cost_om_annual_investment_fraction timestep_resolution timestep_weights",
     [{}, {"absent": "cost_om_annual"}, {"absent": "cost_om_annual_investment_fraction"}, {"low": "cost_om_annual"}])

comp("C24", G, "cost", NTK,
     lambda S, e: S.Or(S.has("cost_investment_annualised", e), S.has("cost_operation_fixed", e), any_step(S, ["cost_operation_variable"], e)),
     lambda S, e: S.v("cost_investment_annualised", e) + S.sum("vom", [TS], lambda x: S.v("cost_operation_variable", x), e) + S.v("cost_operation_fixed", e),
     "cost_investment_annualised cost_operation_variable cost_operation_fixed", [{}, {"absent": "cost_operation_variable"}, {"absent": "cost_operation_fixed"}])


def objective(S, e):
    cost = S.sum("w", [K], lambda x: S.sum("c", [N, T], lambda y: S.v("cost", y), x) * S.v("objective_cost_weights", x), {})
    unmet = S.sum("ts", [TS], lambda x: S.sum("u", [C, N], lambda y: S.v("unmet_demand", y) - S.v("unused_supply", y), x) * S.v("timestep_weights", x), {})
    return cost + unmet * S.v("bigM", {})


comp("C24", "objectives", "min_cost_optimisation", [], lambda S, e: True, objective,
     "cost objective_cost_weights unmet_demand unused_supply timestep_weights bigM",
     [{}, {"absent": "unmet_demand unused_supply"}, {"absent": "objective_cost_weights bigM"}])

register("C24")
real.register("C24")
