"""C23: capacity, ramping, link and system limits of the base formulation."""
from . import real
from .base import C, INF, N, T, TS, comp, register

NT, NTC, NTCS, NTS = [N, T], [N, T, C], [N, T, C, TS], [N, T, TS]


def bound(name, foreach, exists, lhs, op, rhs, uses, *variants):
    comp("C23", "constraints", name, foreach, exists, lambda S, e: (lhs(S, e), op, rhs(S, e)), uses, list(variants) or [{}])


v = lambda n: (lambda S, e: S.v(n, e))

bound("flow_capacity_per_storage_capacity_min", NTC, lambda S, e: S.And(S.has("storage_cap", e), S.has("flow_cap_per_storage_cap_min", e)),
      v("flow_cap"), ">=", lambda S, e: S.v("storage_cap", e) * S.v("flow_cap_per_storage_cap_min", e), "flow_cap storage_cap flow_cap_per_storage_cap_min",
      {}, {"absent": "flow_cap_per_storage_cap_min"}, {"low": "flow_cap_per_storage_cap_min"})
bound("flow_capacity_per_storage_capacity_max", NTC, lambda S, e: S.And(S.has("storage_cap", e), S.has("flow_cap_per_storage_cap_max", e)),
      v("flow_cap"), "<=", lambda S, e: S.v("storage_cap", e) * S.v("flow_cap_per_storage_cap_max", e), "flow_cap storage_cap flow_cap_per_storage_cap_max",
      {}, {"absent": "flow_cap_per_storage_cap_max"}, {"low": "flow_cap_per_storage_cap_max"})
bound("source_capacity_equals_flow_capacity", NTC, lambda S, e: S.And(S.has("source_cap", e), S.true("source_cap_equals_flow_cap", e)),
      v("source_cap"), "==", v("flow_cap"), "source_cap flow_cap source_cap_equals_flow_cap", {}, {"absent": "source_cap_equals_flow_cap"})


bound("force_zero_area_use", NT, lambda S, e: S.And(S.has("area_use", e), S.cmp("flow_cap_max", "==", 0, e)), v("area_use"), "==", lambda S, e: 0, "area_use flow_cap_max",
      {"low": "flow_cap_max"}, {"absent": "flow_cap_max"}, {})
bound("area_use_per_flow_capacity", NTC, lambda S, e: S.And(S.has("area_use", e), S.has("area_use_per_flow_cap", e)),
      v("area_use"), "==", lambda S, e: S.v("flow_cap", e) * S.v("area_use_per_flow_cap", e), "area_use flow_cap area_use_per_flow_cap",
      {}, {"absent": "area_use_per_flow_cap"}, {"low": "area_use_per_flow_cap"})
bound("area_use_capacity_per_loc", [N], lambda S, e: S.And(S.has("area_use", e), S.has("available_area", e)),
      lambda S, e: S.sum("a", [T], lambda x: S.v("area_use", x), e), "<=", v("available_area"), "area_use available_area", {}, {"absent": "available_area"})


bound("flow_capacity_systemwide_max", [T, C], lambda S, e: S.has("flow_cap_max_systemwide", e),
      lambda S, e: S.sum("f", [N], lambda x: S.v("flow_cap", x), e), "<=", v("flow_cap_max_systemwide"), "flow_cap flow_cap_max_systemwide",
      {}, {"absent": "flow_cap_max_systemwide"}, {"low": "flow_cap_max_systemwide"})
bound("flow_capacity_systemwide_min", [T, C], lambda S, e: S.has("flow_cap_min_systemwide", e),
      lambda S, e: S.sum("f", [N], lambda x: S.v("flow_cap", x), e), ">=", v("flow_cap_min_systemwide"), "flow_cap flow_cap_min_systemwide",
      {}, {"absent": "flow_cap_min_systemwide"}, {"low": "flow_cap_min_systemwide"})
bound("flow_out_max", NTCS, lambda S, e: S.true("carrier_out", e), v("flow_out"), "<=",
      lambda S, e: S.v("flow_cap", e) * S.v("timestep_resolution", e) * S.v("flow_out_parasitic_eff", e),
      "carrier_out flow_out flow_cap timestep_resolution flow_out_parasitic_eff", {}, {"absent": "flow_out_parasitic_eff"}, {"low": "flow_out_parasitic_eff"})
bound("flow_out_min", NTCS, lambda S, e: S.has("flow_out_min_relative", e), v("flow_out"), ">=",
      lambda S, e: S.v("flow_cap", e) * S.v("timestep_resolution", e) * S.v("flow_out_min_relative", e),
      "flow_out flow_cap timestep_resolution flow_out_min_relative", {}, {"absent": "flow_out_min_relative"}, {"low": "flow_out_min_relative"})
bound("flow_in_max", NTCS, lambda S, e: S.true("carrier_in", e), v("flow_in"), "<=",
      lambda S, e: S.v("flow_cap", e) * S.v("timestep_resolution", e), "carrier_in flow_in flow_cap timestep_resolution")
bound("source_max", NTS, lambda S, e: S.has("source_cap", e), v("source_use"), "<=",
      lambda S, e: S.v("timestep_resolution", e) * S.v("source_cap", e), "source_use source_cap timestep_resolution")
bound("symmetric_transmission", NT, lambda S, e: S.is_("base_tech", "transmission", e),
      lambda S, e: S.sum("f", [C], lambda x: S.v("flow_cap", x), e), "==", v("link_flow_cap"), "base_tech flow_cap link_flow_cap")
bound("export_balance", NTCS, lambda S, e: S.has("flow_export", e), v("flow_out"), ">=", v("flow_export"), "flow_out flow_export", {}, {"absent": "flow_export"})


def rate(S, e):
    """Net flow per hour of the technology."""
    i, o = S.true("carrier_in", e), S.true("carrier_out", e)
    r = S.v("timestep_resolution", e)
    return S.cases((S.And(o, S.Not(i)), S.v("flow_out", e) / r), (S.And(i, S.Not(o)), S.v("flow_in", e) / r),
                   (S.And(i, o), (S.v("flow_out", e) - S.v("flow_in", e)) / r))


ramps = lambda S, e: S.And(S.has("flow_ramping", e), S.Not(S.first(e)), S.Or(S.true("carrier_in", e), S.true("carrier_out", e)))
RU = "flow_ramping carrier_in carrier_out flow_out flow_in flow_cap timestep_resolution"
bound("ramping_up", NTCS, ramps, lambda S, e: rate(S, e) - rate(S, S.prev(e)), "<=", lambda S, e: S.v("flow_ramping", e) * S.v("flow_cap", e), RU,
      {}, {"absent": "flow_ramping"}, {"low": "flow_ramping"})
bound("ramping_down", NTCS, ramps, lambda S, e: rate(S, S.prev(e)) - rate(S, e), "<=", lambda S, e: S.v("flow_ramping", e) * S.v("flow_cap", e), RU,
      {}, {"absent": "flow_ramping"}, {"low": "flow_ramping"})

comp("C23", "variables", "flow_cap", NTC, lambda S, e: True, ("flow_cap_min", "flow_cap_max"), "")
comp("C23", "variables", "link_flow_cap", [T], lambda S, e: S.is_("base_tech", "transmission", e), (0, INF), "base_tech")
comp("C23", "variables", "area_use", NT,
     lambda S, e: S.Or(S.has("area_use_min", e), S.has("area_use_max", e), S.has("area_use_per_flow_cap", e),
                       S.is_("sink_unit", "per_area", e), S.is_("source_unit", "per_area", e)),
     ("area_use_min", "area_use_max"), "area_use_min area_use_max area_use_per_flow_cap sink_unit source_unit",
     [{}, {"low": "area_use_per_flow_cap"}, {"absent": "sink_unit area_use_max"}])
comp("C23", "variables", "source_cap", NT, lambda S, e: S.is_("base_tech", "supply", e), ("source_cap_min", "source_cap_max"), "base_tech")

register("C23")
real.register("C23")
