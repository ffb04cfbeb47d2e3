"""C18: definitions of nodes, technologies and links to input arrays."""
import copy
import itertools

import pandas as pd

from dv.registry import bounded

from . import upd

MB = "preprocess.model_data.ModelDataBuilder"
TARGETS = [f"{MB}.{x}" for x in ("build", "add_node_tech_data", "add_top_level_data_definitions", "_get_relevant_node_refs", "_input_data_dict_to_array", "_definition_dict_to_ds",
                                 "_prepare_input_data_dict", "_inherit_defs", "_deactivate_item", "_links_to_node_format", "_add_to_dataset", "_update_one_way_links",
                                 "_raise_error_on_transmission_tech_def")]

MATH = {"dimensions": {"zones": {"dtype": "string"}, "years": {"dtype": "integer"}},
        "parameters": {"p_num": {}, "p_zone": {}, "p_year": {}, "p_node": {}, "p_time": {}},
        "lookups": {"l_text": {"dtype": "string"}, "l_flag": {"dtype": "bool"}}}
LABELS = {"carriers": ["power", "heat", "gas", "c4"], "costs": ["monetary", "co2"], "zones": ["z1", "z2", "z_3"], "years": [2030, 2040, 2050]}
NODES = ["n1", "n2", "north", "n4"]
# name -> dimensions an indexed definition may have ([]: only unindexed)
PARAMS = {"p_num": [], "flow_cap_max": ["carriers"], "flow_cap_min": ["carriers"], "flow_out_eff": ["carriers"], "lifetime": [], "cost_flow_cap": ["costs"], "cost_storage_cap": ["costs"],
          "cost_flow_out": ["costs", "carriers"], "l_text": [], "l_flag": [], "p_zone": ["zones"], "p_year": ["years"]}
MUST = {"cost_flow_cap", "cost_storage_cap", "cost_flow_out", "p_zone", "p_year"}


def number(rng):
    return rng.choice([0, 1, 5, 2.5, 1e-6, 1e9, float("inf"), round(rng.uniform(0, 9), 3)])


def val(rng, name):
    if name == "l_text":
        return rng.choice(["x", "y z", "1"])
    if name == "l_flag":
        return rng.random() < 0.6
    if name == "lifetime":
        return rng.randint(1, 40)
    return number(rng)


def indexed(rng, name, dims, pool=LABELS):
    """(definition, {labels: value})."""
    dims = rng.sample(dims, len(dims))
    keys = list(itertools.product(*(pool[d] for d in dims)))
    keys = rng.sample(keys, rng.randint(1, min(4, len(keys))))
    short = len(dims) == 1 and rng.random() < 0.6
    idx = [k[0] if short else list(k) for k in keys]
    if rng.random() < 0.4:
        data = val(rng, name)
        vals = [data] * len(keys)
    else:
        data = vals = [val(rng, name) for _ in keys]
    one = len(keys) == 1
    if one and rng.random() < 0.5 and isinstance(data, list):
        data = data[0]
    d = {"data": data, "dims": dims[0] if len(dims) == 1 and rng.random() < 0.6 else list(dims),
         "index": idx[0] if one and short and rng.random() < 0.6 else idx}
    return d, (tuple(dims), dict(zip(keys, vals)))


def meaning(d):
    """{labels by dimension: value} of a definition as the documentation describes it."""
    if not isinstance(d, dict):
        return ((), {(): d})
    L = lambda x: x if isinstance(x, list) else [x]
    dims = tuple(L(d["dims"]))
    idx = [tuple(L(i)) for i in L(d["index"])]
    data = d["data"] if isinstance(d["data"], list) else [d["data"]] * len(idx)
    if len(data) == 1:
        data = data * len(idx)
    return (dims, dict(zip(idx, data)))


def param(rng, name):
    dims = PARAMS[name]
    if dims and (name in MUST or rng.random() < 0.5):
        return indexed(rng, name, dims)[0]
    return val(rng, name)


def carriers(rng, most=2):
    k = rng.sample(LABELS["carriers"][:3], rng.randint(1, most))
    return k[0] if len(k) == 1 and rng.random() < 0.7 else k


def technology(rng, name):
    base = rng.choice(["supply", "demand", "storage", "conversion", "conversion"])
    d = {"base_tech": base}
    if base == "supply":
        d["carrier_out"] = carriers(rng)
    elif base == "demand":
        d["carrier_in"] = carriers(rng)
    elif base == "storage":
        d["carrier_in"] = d["carrier_out"] = carriers(rng)
    else:
        d["carrier_in"], d["carrier_out"] = carriers(rng), carriers(rng)
    return d


def random_definition(rng):
    nodes = rng.sample(NODES, rng.randint(1, 4))
    names = rng.sample(["wind", "T2", "boiler", "store", "chp"], rng.randint(1, 5))
    techs = {t: technology(rng, t) for t in names}
    used = rng.sample(sorted(PARAMS), rng.randint(2, 8))
    for t in techs:
        for p in used:
            if rng.random() < 0.6:
                techs[t][p] = param(rng, p)
        if rng.random() < 0.08:
            techs[t]["active"] = False
        elif rng.random() < 0.1:
            techs[t]["active"] = True
    nd = {}
    for n in nodes:
        nd[n] = {"techs": {}}
        for t in names:
            if rng.random() > 0.65:
                continue
            o = {}
            for p in used:
                if rng.random() < 0.25:
                    o[p] = param(rng, p)
                    if p in techs[t] and not isinstance(techs[t][p], dict) and isinstance(o[p], dict):
                        o[p] = val(rng, p)  # sections cannot replace single values (refused)
                    if rng.random() < 0.3 and isinstance(techs[t].get(p), dict):
                        o[p] = {"data": val(rng, p)}
            if rng.random() < 0.07:
                o["active"] = rng.random() < 0.3
            if rng.random() < 0.08 and "carrier_out" in techs[t]:
                o["carrier_out"] = rng.choice(LABELS["carriers"][:3])
            nd[n]["techs"][t] = o if o or rng.random() < 0.3 else None
        if rng.random() < 0.5:
            nd[n]["p_node"] = number(rng)
        if rng.random() < 0.1:
            nd[n]["active"] = False
    links = {}
    for k in range(rng.randint(0, 3)):
        if len(NODES) < 2:
            break
        a, b = rng.sample(NODES if rng.random() < 0.2 else nodes, 2) if len(nodes) > 1 else rng.sample(NODES, 2)
        c = rng.choice(LABELS["carriers"][:3])
        d = {"base_tech": "transmission", "carrier_in": c, "carrier_out": c, "link_from": a, "link_to": b}
        if rng.random() < 0.4:
            d["one_way"] = rng.random() < 0.7
        if rng.random() < 0.1:
            d["active"] = False
        for p in used:
            if rng.random() < 0.4:
                d[p] = param(rng, p)
        links[f"link{k}"] = d
    items = list(techs.items()) + list(links.items())
    rng.shuffle(items)
    defs = {}
    for p in rng.sample([*used, "bigM", "p_time"], rng.randint(0, 3)):
        if p in ("l_flag",):
            continue
        if p == "bigM":
            defs[p] = number(rng)
        elif p == "p_time":
            defs[p] = indexed(rng, p, ["timesteps"], {"timesteps": [f"2005-01-01 0{h}:00" for h in range(4)]})[0]
        else:
            own = rng.choice([["techs"], ["techs", "nodes"]])
            extra = PARAMS[p] if p in MUST or rng.random() < 0.5 else []
            pool = {**LABELS, "techs": [*techs, *links], "nodes": NODES}
            defs[p] = indexed(rng, p, own + list(extra), pool)[0]
    return {"techs": dict(items), "nodes": nd, "data_definitions": defs}


def expected(d):
    """({(node, tech): {"in": carriers, "out": carriers, data}}, active nodes with their own data)."""
    L = lambda x: x if isinstance(x, list) else [] if x is None else [x]
    nodes = {n: v for n, v in d["nodes"].items() if v.get("active", True)}
    out = {}
    for n, v in nodes.items():
        for t, o in v["techs"].items():
            e = copy.deepcopy(d["techs"][t])
            for k, x in (o or {}).items():
                if isinstance(x, dict) and isinstance(e.get(k), dict):
                    e[k].update(x)
                else:
                    e[k] = x
            if e.pop("active", True):
                out[n, t] = e
    for t, e in d["techs"].items():
        if e["base_tech"] != "transmission" or not e.get("active", True):
            continue
        a, b = e["link_from"], e["link_to"]
        if a not in nodes or b not in nodes:
            continue
        for n in (a, b):
            x = {k: v for k, v in e.items() if k not in ("link_from", "link_to", "active")}
            if e.get("one_way"):
                x.pop("carrier_out" if n == a else "carrier_in")
            out[n, t] = x
    return nodes, {k: {**e, "carrier_in": L(e.get("carrier_in")), "carrier_out": L(e.get("carrier_out"))} for k, e in out.items()}


def same(a, b):
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b or (a in (None, False) and b in (None, False))
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


@bounded("C18", targets=TARGETS, trials=200, shards=4, budget_s=200)
def random_definitions(b):
    """Random definitions of nodes, technologies, links and indexed data; every cell of every input of the model against a plain reading of the definition."""
    import logging

    import calliope
    from calliope.exceptions import ModelError

    logging.disable(logging.ERROR)
    rng = b.rng
    d = random_definition(rng)
    nodes, exp = expected(d)
    if not any(e["carrier_in"] for e in exp.values()) or not any(e["carrier_out"] for e in exp.values()):
        return  # nothing flows in such a model
    full = {"config": {"init": {"name": "x", "broadcast_input_data": True, "extra_math": ["own"]}}, **copy.deepcopy(d),
            "data_tables": {"t": {"table": "t", "rows": "timesteps", "add_dims": {"inputs": "p_series"}}}}
    df = pd.DataFrame({"v": [1.0, 2, 3, 4]}, index=pd.Index([f"2005-01-01 0{h}:00" for h in range(4)], name="timesteps"))
    detail = {"definition": d}
    b.case(str(d))
    try:
        m = calliope.read_dict(full, data_table_dfs={"t": df}, math_dict={"own": {**MATH, "parameters": {**MATH["parameters"], "p_series": {}}}})
    except ModelError as e:
        b.check("valid definitions are accepted", False, {**detail, "error": str(e)[:500]})
        return
    I = m.inputs
    # --- existence ---
    use = {(n, t, c) for (n, t), e in exp.items() for c in e["carrier_in"] + e["carrier_out"]}
    dm = {tuple(dict(zip(I.definition_matrix.dims, k))[x] for x in ("nodes", "techs", "carriers")) for k, v in upd.as_dict(I.definition_matrix).items() if v}
    b.check("technologies exist exactly where they are defined", dm == use, {**detail, "missing": sorted(use - dm)[:5], "unexpected": sorted(dm - use)[:5]})
    if dm != use:
        return
    for dim, i in [("nodes", 0), ("techs", 1), ("carriers", 2)]:
        b.check(f"the {dim} of the model are those in use", set(I[dim].values) == {k[i] for k in use} and len(I[dim]) == len({k[i] for k in use}), {**detail, "got": list(I[dim].values)})
    for p in ("carrier_in", "carrier_out"):
        a = I.get(p)
        got = set() if a is None else {tuple(dict(zip(a.dims, k))[x] for x in ("nodes", "techs", "carriers")) for k, v in upd.as_dict(a).items() if v}
        want = {(n, t, c) for (n, t), e in exp.items() for c in e[p]}
        b.check(f"{p} holds exactly at the carriers given for the technology at the node (links: at both ends, one-way links only from start to end)", got == want,
                {**detail, "missing": sorted(want - got)[:5], "unexpected": sorted(got - want)[:5]})
    # --- values ---
    names = sorted({p for e in exp.values() for p in e if p in PARAMS or p in ("base_tech", "one_way")} | {p for p in d["data_definitions"] if p in PARAMS})
    for p in names:
        top = meaning(d["data_definitions"][p]) if p in d["data_definitions"] else ((), {})
        mean = {k: meaning(e[p]) for k, e in exp.items() if p in e}
        extra = {x for dims, _ in [*mean.values(), top] for x in dims} - {"nodes", "techs"}

        def cell(n, t, env):
            """The value at one cell; data definitions replace what nodes and technologies define."""
            env = {**env, "nodes": n, "techs": t}
            if top[0]:
                v = top[1].get(tuple(env[x] for x in top[0]))
                if v is not None:
                    return v
            if (n, t) in mean:
                dims, vals = mean[n, t]
                return vals.get(tuple(env[x] for x in dims))
            return None

        some = any(v not in (None, False) for k in exp for c in itertools.product(*(list(I[x].values) if x in I.coords else [] for x in sorted(extra)))
                   if ("carriers" not in extra or (*k, dict(zip(sorted(extra), c))["carriers"]) in use) for v in [cell(*k, dict(zip(sorted(extra), c)))])
        if p not in I:
            b.check("inputs with values are part of the model", not some, {**detail, "input": p})
            continue
        a = I[p]
        b.check("the dimensions of an input are those it is defined over", set(a.dims) - {"nodes"} == extra | {"techs"}, {**detail, "input": p, "dims": a.dims})
        if set(a.dims) - {"nodes"} != extra | {"techs"}:
            continue
        for key, got in upd.as_dict(a).items():
            env = dict(zip(a.dims, key))
            t = env["techs"]
            at = [env["nodes"]] if "nodes" in env else [n for n, s in exp if s == t]
            anywhere = "carriers" not in env or any((n, t, env["carriers"]) in use for n in at)
            want = [cell(n, t, env) if (n, t) in exp and anywhere else None for n in at]
            ok = all(same(got, w) for w in want)
            b.check("every value is at exactly the labels it is defined for, the node's before the technology's", ok, {**detail, "input": p, "at": env, "got": got, "expected": str(dict(zip(at, want)))})
            if not ok:
                break
    if any("p_node" in nodes[n] for n in nodes if any(k[0] == n for k in exp)):
        got = {k[0]: v for k, v in upd.as_dict(I["p_node"]).items()}
        want = {n: nodes[n].get("p_node") for n in {k[0] for k in exp}}
        b.check("data of nodes is at exactly that node", I.p_node.dims == ("nodes",) and set(got) == set(want) and all(same(got[n], want[n]) for n in want), {**detail, "got": got, "expected": want})
    for p in ("bigM", "p_time"):
        if p not in d["data_definitions"]:
            continue
        dims, vals = meaning(d["data_definitions"][p])
        if p == "bigM":
            b.check("indexed data is at exactly its labels", I.bigM.dims == () and same(I.bigM.item(), vals[()]), {**detail, "input": p})
        else:
            got = {str(k[0])[:16].replace("T", " "): v for k, v in upd.as_dict(I.p_time).items() if v is not None}
            b.check("indexed data is at exactly its labels", got.keys() == {k[0] for k in vals} and all(same(got[k[0]], v) for k, v in vals.items()), {**detail, "input": p, "got": got})


@bounded("C18", targets=[f"{MB}._prepare_input_data_dict", f"{MB}._raise_error_on_transmission_tech_def", f"{MB}._inherit_defs", f"{MB}._get_relevant_node_refs"], trials=20, shards=2, budget_s=60)
def refused_definitions(b):
    """Definitions that cannot be placed are refused: lengths that do not match, technologies not defined, links at nodes, changes of the base technology at nodes."""
    import logging

    import calliope
    from calliope.exceptions import ModelError

    logging.disable(logging.ERROR)
    rng = b.rng
    d = {"techs": {"s": {"base_tech": "supply", "carrier_out": "power"}, "l": {"base_tech": "transmission", "carrier_in": "power", "carrier_out": "power", "link_from": "n1", "link_to": "n2"}},
         "nodes": {"n1": {"techs": {"s": {}}}, "n2": {"techs": {"s": {}}}}, "data_definitions": {}}
    kind = rng.choice(["none", "length", "broadcast", "undefined", "link", "base", "list", "techs dim"])
    where = rng.choice([d["techs"]["s"], d["nodes"]["n2"]["techs"]["s"]])
    cfg = {"broadcast_input_data": rng.random() < 0.5}
    k = rng.randint(2, 3)
    if kind == "length":
        n = rng.choice([x for x in range(2, 5) if x != k])
        where["p_zone"] = {"data": [1.0] * n, "index": LABELS["zones"][:k], "dims": "zones"}
    elif kind == "broadcast":
        where["p_zone"] = {"data": 1.0, "index": LABELS["zones"][:k], "dims": "zones"}
    elif kind == "undefined":
        d["nodes"]["n1"]["techs"]["q"] = rng.choice([None, {}, {"p_num": 1}])
    elif kind == "link":
        d["nodes"]["n1"]["techs"]["l"] = rng.choice([None, {"p_num": 1}])
    elif kind == "base":
        d["nodes"]["n1"]["techs"]["s"] = {"base_tech": rng.choice(["supply", "demand"])}
    elif kind == "list":
        where["p_num"] = [1, 2]
    elif kind == "techs dim":
        where["p_num"] = {"data": 1, "index": "n1", "dims": rng.choice(["nodes", ["nodes"]])}
    full = {"config": {"init": {"name": "x", "extra_math": ["own"], **cfg}}, **copy.deepcopy(d), "data_tables": {"t": {"table": "t", "rows": "timesteps", "add_dims": {"inputs": "p_series"}}}}
    df = pd.DataFrame({"v": [1.0, 2, 3, 4]}, index=pd.Index([f"2005-01-01 0{h}:00" for h in range(4)], name="timesteps"))
    b.case((kind, k, cfg["broadcast_input_data"], where is d["techs"]["s"]))
    fine = kind == "none" or (kind == "broadcast" and cfg["broadcast_input_data"])
    try:
        calliope.read_dict(full, data_table_dfs={"t": df}, math_dict={"own": {**MATH, "parameters": {**MATH["parameters"], "p_series": {}}}})
        b.check("definitions that cannot be placed are refused", fine, {"kind": kind, "definition": d, "config": cfg})
    except (ModelError, ValueError, KeyError) as e:
        b.check("definitions that can be placed are accepted", not fine, {"kind": kind, "definition": d, "config": cfg, "error": str(e)[:300]})
