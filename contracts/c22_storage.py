"""C22: storage dynamics and limits of the base formulation."""
from . import real
from .base import C, INF, N, T, TS, comp, register

NT, NTCS, NTS = [N, T], [N, T, C, TS], [N, T, TS]
CL = {"steps": 3}
NOCL = "cluster_first_timestep lookup_cluster_last_timestep"


def stores(S, e):
    return S.Or(S.true("include_storage", e), S.is_("base_tech", "storage", e))


def kept(S, e):
    """What is left at the end of step e, one step later: level after the hourly loss over that step."""
    return (1 - S.v("storage_loss", e)) ** S.v("timestep_resolution", e) * S.v("storage", e)


def previous(S, e):
    start = S.And(S.first(e), S.Not(S.true("cyclic_storage", e)))
    return S.cases((start, S.v("storage_initial", e) * S.v("storage_cap", e)),
                   (S.Not(S.true("cluster_first_timestep", e)), kept(S, S.prev(e))),
                   (True, (1 - S.v("storage_loss", e)) ** S.lookup(lambda x: S.v("timestep_resolution", x), e, "lookup_cluster_last_timestep")
                    * S.lookup(lambda x: S.v("storage", x), e, "lookup_cluster_last_timestep")) if "lookup_cluster_last_timestep" in _have(S)
                   else (False, 0))


def _have(S):
    return S.W.all if hasattr(S, "W") else S.arrays


USES = "base_tech storage storage_cap storage_initial storage_loss timestep_resolution cyclic_storage cluster_first_timestep lookup_cluster_last_timestep"
VARIANTS = [{"absent": NOCL}, {"absent": NOCL + " cyclic_storage storage_initial storage_loss include_storage"}, CL]

comp("C22", "constraints", "balance_storage", NTS,
     lambda S, e: S.And(stores(S, e), S.Not(S.is_("base_tech", "supply", e)), S.Not(S.is_("base_tech", "demand", e))),
     lambda S, e: (S.v("storage", e), "==", previous(S, e) - S.sum("o", [C], lambda x: S.v("flow_out_inc_eff", x), e)
                   + S.sum("i", [C], lambda x: S.v("flow_in_inc_eff", x), e)),
     USES + " include_storage flow_out_inc_eff flow_in_inc_eff", VARIANTS, budget=200)

comp("C22", "constraints", "balance_supply_with_storage", NTCS,
     lambda S, e: S.And(S.has("storage", e), S.is_("base_tech", "supply", e)),
     lambda S, e: (S.v("storage", e), "==", previous(S, e) + S.v("source_use", e) * S.v("source_eff", e) - S.v("flow_out_inc_eff", e)),
     USES + " flow_out_inc_eff source_use source_eff", VARIANTS, budget=200)

comp("C22", "constraints", "set_storage_initial", NT,
     lambda S, e: S.And(_any_storage(S, e), S.has("storage_initial", e), S.true("cyclic_storage", e)),
     lambda S, e: (kept(S, S.last(e)), "==", S.v("storage_initial", e) * S.v("storage_cap", e)),
     "storage storage_initial storage_cap storage_loss timestep_resolution cyclic_storage", [{}, {"absent": "cyclic_storage storage_loss"}])


def _any_storage(S, e):
    if hasattr(S, "W"):
        return S.W.d[TS].exists(lambda i: S.has("storage", {**e, TS: i}))
    return any(S.has("storage", {**e, TS: i}) for i in range(len(S.labels[TS])))


comp("C22", "constraints", "storage_max", NTS, lambda S, e: S.has("storage", e),
     lambda S, e: (S.v("storage", e), "<=", S.v("storage_cap", e)), "storage storage_cap")
comp("C22", "constraints", "storage_discharge_depth_limit", NTS, lambda S, e: S.And(S.has("storage", e), S.has("storage_discharge_depth", e)),
     lambda S, e: (S.v("storage", e), ">=", S.v("storage_discharge_depth", e) * S.v("storage_cap", e)), "storage storage_cap storage_discharge_depth",
     [{}, {"absent": "storage_discharge_depth"}])
comp("C22", "variables", "storage", NTS, stores, (0, INF), "base_tech include_storage", [{}, {"absent": "include_storage"}])
comp("C22", "variables", "storage_cap", NT, stores, ("storage_cap_min", "storage_cap_max"), "base_tech include_storage", [{}, {"absent": "include_storage"}])

register("C22")
real.register("C22")
