"""C21: carrier balance, conversion, links, sinks and sources of the base formulation."""
from . import real
from .base import C, INF, K, N, T, TS, comp, register

CTS, NTCS, NTS = [N, C, TS], [N, T, C, TS], [N, T, TS]


def scaler(S, e, which):
    """Amount a declared sink or source is scaled with."""
    return S.cases((S.is_(which, "per_area", e), S.v("area_use", e)),
                   (S.is_(which, "per_cap", e), S.sum("cap", [C], lambda x: S.v("flow_cap", x), e)),
                   (S.is_(which, "absolute", e), 1))


comp("C21", "constraints", "system_balance", CTS, lambda S, e: True,
     lambda S, e: (S.sum("o", [T], lambda x: S.v("flow_out", x), e) - S.sum("i", [T], lambda x: S.v("flow_in", x), e)
                   - S.sum("x", [T], lambda x: S.v("flow_export", x), e) + S.v("unmet_demand", e) + S.v("unused_supply", e), "==", 0),
     "flow_out flow_in flow_export unmet_demand unused_supply",
     [{}, {"absent": "unmet_demand unused_supply"}, {"absent": "flow_export"}])

comp("C21", "constraints", "balance_conversion", NTS,
     lambda S, e: S.And(S.is_("base_tech", "conversion", e), S.Not(S.true("include_storage", e))),
     lambda S, e: (S.sum("o", [C], lambda x: S.v("flow_out_inc_eff", x), e), "==", S.sum("i", [C], lambda x: S.v("flow_in_inc_eff", x), e)),
     "base_tech include_storage flow_out_inc_eff flow_in_inc_eff", [{}, {"absent": "include_storage"}])

comp("C21", "constraints", "balance_transmission", [T, TS], lambda S, e: S.is_("base_tech", "transmission", e),
     lambda S, e: (S.sum("o", [N, C], lambda x: S.v("flow_out_inc_eff", x), e), "==", S.sum("i", [N, C], lambda x: S.v("flow_in_inc_eff", x), e)),
     "base_tech flow_out_inc_eff flow_in_inc_eff")


def demand(S, e):
    return S.is_("base_tech", "demand", e)


_sink = lambda S, e: S.Or(S.has("sink_use_equals", e), S.has("sink_use_max", e))


comp("C21", "constraints", "balance_demand", NTCS, lambda S, e: S.And(demand(S, e), _sink(S, e)),
     lambda S, e: (S.v("flow_in_inc_eff", e), [(S.has("sink_use_equals", e), "==", S.v("sink_use_equals", e) * scaler(S, e, "sink_unit")),
                                              (True, "<=", S.v("sink_use_max", e) * scaler(S, e, "sink_unit"))]),
     "base_tech sink_use_equals sink_use_max sink_unit area_use flow_cap flow_in_inc_eff",
     [{}, {"absent": "sink_use_max", "low": "sink_use_equals"}, {"absent": "sink_use_equals", "low": "sink_use_max"}, {"absent": "sink_unit area_use"}])

comp("C21", "constraints", "balance_demand_min_use", NTCS,
     lambda S, e: S.And(demand(S, e), S.has("sink_use_min", e), S.Not(S.has("sink_use_equals", e))),
     lambda S, e: (S.v("flow_in_inc_eff", e), ">=", S.v("sink_use_min", e) * scaler(S, e, "sink_unit")),
     "base_tech sink_use_equals sink_use_min sink_unit area_use flow_cap flow_in_inc_eff", [{}, {"absent": "sink_use_equals sink_unit"}])


def supply(S, e):
    return S.is_("base_tech", "supply", e)


comp("C21", "constraints", "balance_supply_no_storage", NTCS, lambda S, e: S.And(supply(S, e), S.Not(S.true("include_storage", e))),
     lambda S, e: (S.v("flow_out_inc_eff", e), "==", S.v("source_use", e) * S.v("source_eff", e)),
     "base_tech include_storage flow_out_inc_eff source_use source_eff", [{}, {"absent": "include_storage source_eff"}])

comp("C21", "constraints", "source_availability_supply", NTS,
     lambda S, e: S.And(S.has("source_use", e), S.Or(S.has("source_use_equals", e), S.has("source_use_max", e))),
     lambda S, e: (S.v("source_use", e), [(S.has("source_use_equals", e), "==", S.v("source_use_equals", e) * scaler(S, e, "source_unit")),
                                         (True, "<=", S.v("source_use_max", e) * scaler(S, e, "source_unit"))]),
     "source_use source_use_equals source_use_max source_unit area_use flow_cap",
     [{}, {"absent": "source_use_max", "low": "source_use_equals"}, {"absent": "source_use_equals"}, {"absent": "source_unit area_use"}])

comp("C21", "constraints", "balance_supply_min_use", NTS,
     lambda S, e: S.And(supply(S, e), S.has("source_use_min", e), S.Not(S.has("source_use_equals", e))),
     lambda S, e: (S.v("source_use", e), ">=", S.v("source_use_min", e) * scaler(S, e, "source_unit")),
     "base_tech source_use source_use_equals source_use_min source_unit area_use flow_cap", [{}, {"absent": "source_use_equals source_unit"}])


def per_distance(S, e, name, other):
    return S.cases((S.is_("base_tech", "transmission", e), S.v(name, e) ** S.v("distance", e)), (True, other))


comp("C21", "global_expressions", "flow_out_inc_eff", NTCS, lambda S, e: S.has("flow_out", e),
     lambda S, e: S.cases((S.is_("base_tech", "transmission", e),
                           S.v("flow_out", e) / (S.v("flow_out_eff", e) * S.v("flow_out_parasitic_eff", e) * S.v("flow_out_eff_per_distance", e) ** S.v("distance", e))),
                          (True, S.v("flow_out", e) / (S.v("flow_out_eff", e) * S.v("flow_out_parasitic_eff", e)))),
     "base_tech flow_out flow_out_eff flow_out_parasitic_eff flow_out_eff_per_distance distance",
     [{}, {"absent": "flow_out_parasitic_eff distance", "low": "flow_out_eff"}])

comp("C21", "global_expressions", "flow_in_inc_eff", NTCS, lambda S, e: S.has("flow_in", e),
     lambda S, e: S.cases((S.is_("base_tech", "transmission", e),
                           S.v("flow_in", e) * S.v("flow_in_eff", e) * S.v("flow_in_eff_per_distance", e) ** S.v("distance", e)),
                          (True, S.v("flow_in", e) * S.v("flow_in_eff", e))),
     "base_tech flow_in flow_in_eff flow_in_eff_per_distance distance", [{}, {"absent": "distance", "low": "flow_in_eff"}])

comp("C21", "variables", "flow_out", NTCS, lambda S, e: S.true("carrier_out", e), (0, INF), "carrier_out")
comp("C21", "variables", "flow_in", NTCS, lambda S, e: S.true("carrier_in", e), (0, INF), "carrier_in")
comp("C21", "variables", "flow_export", NTCS, lambda S, e: S.true("carrier_export", e), ("export_min", "export_max"), "carrier_export",
     [{}, {"absent": "carrier_export"}])
comp("C21", "variables", "source_use", NTS, supply, (0, INF), "base_tech")
comp("C21", "variables", "unmet_demand", CTS, lambda S, e: S.config("ensure_feasibility"), (0, INF), "config")
comp("C21", "variables", "unused_supply", CTS, lambda S, e: S.config("ensure_feasibility"), (-INF, 0), "config")

register("C21")
real.register("C21")
