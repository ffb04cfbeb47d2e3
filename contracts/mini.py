"""Small models built through the public API (calliope.read_dict), used by the bounded checks."""
import copy
import warnings

import numpy as np
import pandas as pd

warnings.simplefilter("ignore")


def times(n=6, freq="h", start="2005-01-01"):
    return pd.date_range(start, periods=n, freq=freq)


def frame(values, index, name="timesteps"):
    """Time table with node columns."""
    df = pd.DataFrame(values, index=pd.Index(pd.Index(index).strftime("%Y-%m-%d %H:%M"), name=name))
    df.columns.name = "nodes"
    return df


def definition(nt=6, freq="h", **top):
    """A base definition: two nodes, supply with gas and elec, storage, conversion, chp, link, demand."""
    d = {
        "config": {"init": {"name": "mini", "broadcast_input_data": True, "mode": "base"},
                   "build": {"ensure_feasibility": True}, "solve": {"solver": "cbc"}},
        "data_definitions": {"bigM": 1e3,
                             "objective_cost_weights": {"data": 1, "index": "monetary", "dims": "costs"}},
        "data_tables": {
            "demand": {"table": "demand", "rows": "timesteps", "columns": "nodes",
                       "add_dims": {"inputs": "sink_use_equals", "techs": "demand"}},
            "sun": {"table": "sun", "rows": "timesteps", "columns": "nodes",
                    "add_dims": {"inputs": "source_use_max", "techs": "pv"}},
        },
        "techs": {
            "demand": {"base_tech": "demand", "carrier_in": "electricity"},
            "heat_demand": {"base_tech": "demand", "carrier_in": "heat", "sink_use_equals": 2},
            "gas": {"base_tech": "supply", "carrier_out": "gas", "flow_cap_max": 50,
                    "cost_source_use": {"data": 0.3, "index": "monetary", "dims": "costs"},
                    "lifetime": 20},
            "pv": {"base_tech": "supply", "carrier_out": "electricity", "flow_cap_max": 12,
                   "source_unit": "per_cap",
                   "cost_flow_cap": {"data": 1.5, "index": "monetary", "dims": "costs"},
                   "cost_interest_rate": {"data": 0.1, "index": "monetary", "dims": "costs"},
                   "lifetime": 25},
            "battery": {"base_tech": "storage", "carrier_in": "electricity", "carrier_out": "electricity",
                        "flow_cap_max": 8, "storage_cap_max": 15, "storage_loss": 0.01,
                        "flow_out_eff": 0.9, "flow_in_eff": 0.95,
                        "cost_storage_cap": {"data": 0.7, "index": "monetary", "dims": "costs"},
                        "lifetime": 10},
            "boiler": {"base_tech": "conversion", "carrier_in": "gas", "carrier_out": "heat",
                       "flow_cap_max": {"data": 15, "index": "heat", "dims": "carriers"}, "flow_out_eff": 0.85},
            "chp": {"base_tech": "conversion", "carrier_in": "gas", "carrier_out": ["electricity", "heat"],
                    "flow_cap_max": {"data": 20, "index": "electricity", "dims": "carriers"},
                    "flow_out_eff": 0.4},
            "line": {"base_tech": "transmission", "carrier_in": "electricity", "carrier_out": "electricity",
                     "link_from": "a", "link_to": "b", "flow_cap_max": 10, "flow_out_eff": 0.98,
                     "cost_flow_cap": {"data": 0.2, "index": "monetary", "dims": "costs"}, "lifetime": 30},
        },
        "nodes": {
            "a": {"techs": {"demand": None, "gas": None, "chp": None, "boiler": None, "heat_demand": None,
                            "battery": None}},
            "b": {"techs": {"demand": None, "pv": None}},
        },
    }
    d.update(top)
    t = times(nt, freq)
    rng = np.random.RandomState(nt)
    dfs = {"demand": frame({"a": np.round(3 + 3 * rng.rand(nt), 2), "b": np.round(2 + 4 * rng.rand(nt), 2)}, t),
           "sun": frame({"b": np.round(rng.rand(nt), 2)}, t)}
    return d, dfs


def merge(base, over):
    """Plain recursive dict update (own code)."""
    out = copy.deepcopy(base)
    for k, v in over.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = merge(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def model(over=None, nt=6, freq="h", math=None, dfs=None, **kw):
    import logging

    import calliope

    logging.disable(logging.ERROR)
    d, frames = definition(nt, freq)
    d = merge(d, over or {})
    frames.update(dfs or {})
    if math is not None:
        kw["math_dict"] = {"extra": math}
        d["config"]["init"]["extra_math"] = list(d["config"]["init"].get("extra_math", [])) + ["extra"]
    return calliope.read_dict(d, data_table_dfs={k: v.copy() for k, v in frames.items() if k in d["data_tables"]}, **kw)


def cost(v, cls="monetary"):
    return {"data": v, "index": cls, "dims": "costs"}


def costs2(v, w):
    return {"data": [v, w], "index": ["monetary", "co2"], "dims": "costs"}


def vary(rng):
    """Random changes of the base definition (a plain dict): units, storage, limits, costs, links."""
    t = {k: {} for k in ("demand", "heat_demand", "gas", "pv", "battery", "boiler", "chp", "line")}
    nodes = {"a": {}, "b": {}}
    d = {"techs": t, "nodes": nodes, "data_definitions": {}}
    p = lambda q: rng.random() < q
    r = lambda lo, hi: round(rng.uniform(lo, hi), 3)
    if p(0.5):
        t["gas"]["flow_cap_min"] = r(0, 5)
    if p(0.3):
        t["gas"]["source_use_min"] = r(0, 1)
    if p(0.3):
        t["gas"]["source_eff"] = r(0.5, 1)
    if p(0.3):
        t["gas"]["source_cap_max"] = r(20, 90)
    if p(0.3):
        t["gas"]["source_cap_equals_flow_cap"] = True
    if p(0.3):
        t["gas"].update(include_storage=True, storage_cap_max=r(10, 30), storage_loss=r(0, 0.1))
        if p(0.5):
            t["gas"]["source_use_max"] = r(10, 30)
    if p(0.4):
        t["pv"].update(source_unit="per_area", area_use_max=r(10, 90))
        if p(0.5):
            t["pv"]["area_use_per_flow_cap"] = r(1, 7)
        if p(0.5):
            nodes["b"]["available_area"] = r(30, 100)
    elif p(0.3):
        t["pv"]["source_unit"] = "absolute"
    if p(0.3):
        t["pv"]["flow_out_parasitic_eff"] = r(0.7, 1)
    if p(0.4):
        t["pv"]["carrier_export"] = "electricity"
        if p(0.6):
            t["pv"]["cost_export"] = cost(-r(0.1, 1))
        if p(0.4):
            t["pv"]["export_max"] = r(1, 9)
    if p(0.4):
        t["demand"]["cost_flow_in"] = cost(r(0, 2))
    if p(0.3):
        t["heat_demand"] = {"sink_use_equals": None, "sink_use_max": r(1, 4)}
        if p(0.6):
            t["heat_demand"]["sink_use_min"] = r(0, 1)
        if p(0.4):
            t["heat_demand"]["sink_unit"] = rng.choice(["per_cap", "per_area"])
            if t["heat_demand"]["sink_unit"] == "per_area":
                t["heat_demand"]["area_use_max"] = r(1, 5)
    if p(0.5):
        t["battery"]["cyclic_storage"] = False
    if p(0.6):
        t["battery"]["storage_initial"] = r(0, 1)
    if p(0.4):
        t["battery"]["storage_discharge_depth"] = r(0, 0.5)
    if p(0.4):
        t["battery"]["flow_cap_per_storage_cap_max"] = r(0.1, 2)
    if p(0.3):
        t["battery"]["flow_cap_per_storage_cap_min"] = r(0.01, 0.1)
    if p(0.3):
        t["battery"]["flow_ramping"] = r(0.1, 1)
    if p(0.3):
        t["battery"]["storage_cap_min"] = r(0, 5)
    if p(0.4):
        t["chp"]["flow_ramping"] = r(0.1, 1)
    if p(0.4):
        t["chp"]["flow_out_min_relative"] = r(0, 0.3)
    if p(0.4):
        t["chp"]["flow_out_eff"] = {"data": [r(0.3, 0.6), r(0.3, 0.6)], "index": ["electricity", "heat"], "dims": "carriers"}
    if p(0.3):
        t["chp"]["cost_flow_out"] = {"data": r(0, 1), "index": [["monetary", "electricity"]], "dims": ["costs", "carriers"]}
    if p(0.3):
        t["boiler"].update(include_storage=True, storage_cap_max=r(3, 9))
    if p(0.4):
        t["line"]["one_way"] = True
    if p(0.5):
        t["line"].update(distance=r(1, 9), flow_out_eff_per_distance=r(0.97, 1), cost_flow_cap_per_distance=cost(r(0, 0.2)))
    if p(0.3):
        t["line"].update(distance=t["line"].get("distance", 2.0), flow_in_eff_per_distance=r(0.97, 1))
    if p(0.3):
        t["pv"]["flow_cap_max_systemwide"] = r(5, 20)
    if p(0.2):
        t["chp"]["flow_cap_min_systemwide"] = r(0, 2)
    if p(0.4):
        t["pv"]["cost_om_annual"] = cost(r(0, 1))
    if p(0.4):
        t["pv"]["cost_om_annual_investment_fraction"] = cost(r(0, 0.1))
    if p(0.3):
        t["battery"]["cost_depreciation_rate"] = cost(r(0, 0.3))
    if p(0.3):
        t["battery"]["cost_interest_rate"] = cost(r(0, 0.2))
    if p(0.3):
        t["gas"]["cost_source_use"] = costs2(r(0, 1), r(0, 1))
        d["data_definitions"]["objective_cost_weights"] = {"data": [1, r(0, 2)], "index": ["monetary", "co2"], "dims": "costs"}
    if p(0.3):
        nodes["b"]["techs"] = {"gas": None, "boiler": {"flow_out_eff": r(0.5, 0.9)}, "heat_demand": None, "battery": {"storage_cap_max": r(1, 20)}}
        if p(0.5):
            t["gas"]["flow_cap_max_systemwide"] = r(30, 90)
    if p(0.2):
        d["config"] = {"build": {"ensure_feasibility": False}}
    if p(0.2):
        t["gas"]["flow_cap_max"] = float("inf")
    return d


def random_model(rng, math=None, nt=None, **kw):
    over = vary(rng)
    nt = nt or rng.choice([3, 4, 6])
    freq = rng.choice(["h", "h", "2h"])
    return model(over, nt=nt, freq=freq, math=math, **kw), over
