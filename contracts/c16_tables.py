"""C16: data tables."""
import itertools
import warnings

import numpy as np
import pandas as pd

from dv.registry import bounded

from . import mini
from . import trees as T
from . import upd

DT = "preprocess.data_tables.DataTable"
TARGETS = [f"{DT}.{x}" for x in ("__init__", "_read_csv", "_df_to_ds", "_rename_axes", "_compare_axis_names", "_check_processed_tdf", "_check_for_protected_params", "_listify_if_defined")]
BUILD = [f"{DT}.{x}" for x in ("tech_dict", "node_dict", "lookup_dict_from_param", "drop")] + ["preprocess.model_data.ModelDataBuilder.init_from_data_tables", "preprocess.model_data.ModelDataBuilder._add_to_dataset",
                                                                                             "preprocess.model_definition.TemplateSolver.resolve_templates"]

POOL = {
    "inputs": ["p_one", "p_two", "flag", "label"],
    "techs": ["wind", "sun", "Hydro"],
    "nodes": ["n1", "n2", "region_3"],
    "carriers": ["power", "heat"],
    "costs": ["monetary", "co2"],
    "timesteps": ["2005-01-01 00:00", "2005-01-01 01:00", "2005-01-01 02:00"],
    "scen": ["s1", "s2"],
    "remark": ["r1", "r2", "r3", "r4"],
}


def value(rng, inp):
    if inp == "flag":
        return rng.random() < 0.5
    if inp == "label":
        return rng.choice(["x", "some text", "1a"])
    return rng.choice([0, 1, -3, 2.5, 1e-7, 1e9, float("inf"), round(rng.uniform(-5, 5), 4)])


def axis(rng, dims, n, one=False):
    """Up to n different label tuples over the dims."""
    keys = list(itertools.product(*(POOL[d] for d in dims)))
    k = 1 if one else rng.randint(1, min(n, len(keys)))
    return rng.sample(keys, k)


def make(rng):
    """(definition, cells, frame, alias names): a table of 1 to 5 dimensions."""
    dims = rng.sample([d for d in POOL if d != "inputs"], rng.randint(0, 4))
    add = {}
    if rng.random() < 0.6 or not dims:
        dims.append("inputs")
    rng.shuffle(dims)
    cut = rng.randint(0, len(dims))
    rows, cols = dims[:cut], dims[cut:]
    rk = axis(rng, rows, 6) if rows else [()]
    ck = axis(rng, cols, 5) if cols else [()]
    hole = rng.choice([0, 0.2, 0.6])
    inp_at = "inputs" if "inputs" in dims else None
    fixed = rng.choice(POOL["inputs"])
    cells = {}
    for r in rk:
        for c in ck:
            e = {**dict(zip(rows, r)), **dict(zip(cols, c))}
            if rng.random() >= hole:
                cells[(r, c)] = value(rng, e["inputs"] if inp_at else fixed)
    if not cells:
        cells[(rk[0], ck[0])] = value(rng, dict(zip([*rows, *cols], [*rk[0], *ck[0]])).get("inputs", fixed))
    d = {"rows": rows or None, "columns": cols or None}
    for k in ("rows", "columns"):
        if d[k] and len(d[k]) == 1 and rng.random() < 0.5:
            d[k] = d[k][0]
    if not inp_at:
        add["inputs"] = fixed if rng.random() < 0.8 else [x for x in ("p_one", "p_two", fixed)][: rng.randint(1, 2)]
    for x in ("techs", "costs", "nodes"):
        if x not in dims and rng.random() < 0.25:
            add[x] = rng.choice([POOL[x][0], rng.sample(POOL[x], rng.randint(1, 2))])
    present = {x: sorted({e[x] for e in ({**dict(zip(rows, r)), **dict(zip(cols, c))} for r in rk for c in ck)}) for x in dims}
    sel = {}
    for x in dims:
        if x != "timesteps" and rng.random() < 0.25:
            s = rng.sample(present[x], rng.randint(1, len(present[x])))
            sel[x] = s[0] if len(s) == 1 and rng.random() < 0.6 else s
    drop = []
    for x in dims:
        single = x in sel and (isinstance(sel[x], str) or len(sel[x]) == 1)
        if len(dims) - len(drop) > 1 and x != "inputs" and rng.random() < (0.6 if single or x in ("remark", "scen") else 0.05):
            drop.append(x)
            if x in ("techs", "costs", "nodes") and rng.random() < 0.5:
                add[x] = POOL[x][-1]
    if sel:
        d["select"] = sel
    if drop:
        d["drop"] = drop if len(drop) > 1 or rng.random() < 0.5 else drop[0]
    if add:
        d["add_dims"] = add
    alias = {}
    for x in dims:
        if x not in drop and rng.random() < 0.2:
            alias[x] = x + "_in_file"
    if alias:
        d["rename_dims"] = {v: k for k, v in alias.items()}
    return d, rows, cols, rk, ck, cells, alias


def expected(d, rows, cols, cells):
    """{input: {frozenset of (dim, label): value}} or None where two cells meet at the same place."""
    lst = lambda x: [x] if isinstance(x, str) else list(x)
    out = {}
    for (r, c), v in cells.items():
        e = {**dict(zip(rows, r)), **dict(zip(cols, c))}
        if any(e[x] not in lst(s) for x, s in d.get("select", {}).items()):
            continue
        for x in lst(d.get("drop", [])):
            e.pop(x)
        add = d.get("add_dims", {})
        for combo in itertools.product(*(lst(a) for a in add.values())):
            f = {**e, **dict(zip(add, combo))}
            n = f.pop("inputs")
            k = frozenset(f.items())
            if k in out.setdefault(n, {}):
                return None
            out[n][k] = v
    return out


def frame(rng, rows, cols, rk, ck, cells, alias, named=True):
    data = [[cells.get((r, c), np.nan) for c in ck] for r in rk]
    nm = lambda ds: [alias.get(x, x) if named or x in alias else None for x in ds]
    idx = pd.MultiIndex.from_tuples(rk, names=nm(rows)) if len(rows) > 1 else pd.Index([k[0] for k in rk], name=nm(rows)[0]) if rows else pd.RangeIndex(1)
    col = pd.MultiIndex.from_tuples(ck, names=nm(cols)) if len(cols) > 1 else pd.Index([k[0] for k in ck], name=nm(cols)[0]) if cols else pd.Index([rng.choice(["values", "0", "anything"])])
    df = pd.DataFrame(data, index=idx, columns=col, dtype=object)
    return df.infer_objects() if rng.random() < 0.8 else df


def to_csv(path, df, rows, cols):
    """The documented layout: header rows of the column levels, then rows; names of the row dimensions in the (last) header row."""
    import csv

    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        names = [n or "" for n in df.index.names] if rows else []
        if len(cols) > 1:
            for i in range(len(cols)):
                lead = [""] * len(names)
                if lead:
                    lead[-1] = df.columns.names[i] or ""
                w.writerow([*lead, *(k[i] for k in df.columns)])
            if any(names):
                w.writerow([*names, *("" for _ in df.columns)])
        else:
            w.writerow([*names, *df.columns])
        for k, row in zip(df.index, df.values.tolist()):
            w.writerow([*((k if len(rows) > 1 else [k]) if rows else []), *("" if isinstance(v, float) and v != v else repr(v) if isinstance(v, float) else v for v in row)])


def same(x, v):
    if isinstance(v, str):
        return x == v
    try:
        return float(x) == float(v)
    except (TypeError, ValueError):
        return False


@bounded("C16", targets=TARGETS, trials=1200, shards=4, budget_s=150)
def random_tables(b):
    """One random table (CSV file or in-memory), with selection, dropping, added and renamed dimensions, against a cell-by-cell reading."""
    from calliope.exceptions import ModelError
    from calliope.preprocess.data_tables import DataTable
    from calliope.schemas.data_table_schema import CalliopeDataTable

    rng = b.rng
    d, rows, cols, rk, ck, cells, alias = make(rng)
    csv_ = rng.random() < 0.5
    named = rng.random() < 0.7
    df = frame(rng, rows, cols, rk, ck, cells, alias, named)
    wrong = None
    if rng.random() < 0.12:
        wrong = rng.choice(["name", "row twice", "column twice", "levels", "extra column", "extra row"])
        if wrong == "name" and rows:
            df = df.rename_axis(index=["other", *df.index.names[1:]])
        elif wrong == "row twice" and rows:
            df = pd.concat([df, df.iloc[[0]]])
            if df.iloc[0].isnull().all():
                wrong = None
                df = df.iloc[:-1]
        elif wrong == "column twice" and cols:
            df = pd.concat([df, df.iloc[:, [0]]], axis=1)
            if df.iloc[:, 0].isnull().all():
                wrong = None
                df = df.iloc[:, :-1]
        elif wrong == "levels" and not csv_ and rows:
            df = pd.concat([df], keys=["k"], names=["more"])
        elif wrong == "extra column" and not cols:
            df = df.assign(more=list(df.iloc[:, 0]))
        elif wrong == "extra row" and not rows:
            df = pd.concat([df, df], ignore_index=True)
        else:
            wrong = None
    d["table"] = "t.csv" if csv_ else "t"
    b.case((len(rows), len(cols), csv_, wrong, bool(d.get("drop"))))
    detail = {"definition": {k: v for k, v in d.items() if v is not None}, "frame": repr(df.to_dict("split"))[:900], "csv": csv_, "wrong": wrong}
    ref = expected(d, rows, cols, cells)
    dfs = {}
    if csv_:
        (b.scratch / "model.yaml").write_text("")
        to_csv(b.scratch / "t.csv", df, rows, cols)
    else:
        dfs = {"t": df}
        copy = df.copy(deep=True)
    # selection may remove the repeated entry
    certain = wrong if wrong not in ("row twice", "column twice") or not d.get("select") or (wrong == "column twice" and csv_) else None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ds = DataTable("t", CalliopeDataTable.model_validate(d), dfs, b.scratch / "model.yaml").dataset
        except (ModelError, ValueError) as e:
            holes = len(cells) < len(rk) * len(ck)
            b.check("only duplicate or inconsistent tables are refused", wrong or ref is None or (d.get("drop") and holes), {**detail, "error": str(e)[:300]})
            return
        except KeyError as e:
            lst = lambda x: [x] if isinstance(x, str) else list(x)
            full = all(any(x in {**dict(zip(rows, r)), **dict(zip(cols, c))}.values() for (r, c) in cells) for s in d.get("select", {}).values() for x in lst(s))
            b.check("selecting labels that hold data does not fail", not full or wrong or not ref, {**detail, "error": repr(e)[:300]})
            return
        finally:
            if not csv_:
                b.check("the user's table is not changed", df.equals(copy) and list(df.index.names) == list(copy.index.names) and list(df.columns.names) == list(copy.columns.names), detail)
    b.check("duplicate or inconsistent index definitions are refused", certain is None and (ref is not None or wrong), detail)
    if wrong or ref is None:
        return
    b.check("exactly the inputs of the table are loaded", {k for k in ds.data_vars if ds[k].notnull().any()} == set(ref), {**detail, "got": list(ds.data_vars), "expected": list(ref)})
    for n, want in ref.items():
        if n not in ds:
            continue
        a = ds[n]
        got = {frozenset(zip(a.dims, k)): v for k, v in upd.as_dict(a).items() if v is not None}
        b.check("every cell is at its input and labels, and nothing else is there", set(got) == set(want), {**detail, "input": n, "unexpected": str([dict(k) for k in set(got) - set(want)][:4]), "lost": str([dict(k) for k in set(want) - set(got)][:4])})
        bad = [(dict(k), got[k], want[k]) for k in set(got) & set(want) if not same(got[k], want[k])]
        b.check("every cell keeps its value", not bad, {**detail, "input": n, "(at, got, expected)": str(bad[:4])})


@bounded("C16", targets=[*TARGETS, *BUILD], trials=120, shards=4, budget_s=150)
def random_models(b):
    """Several tables (some through templates) over the same inputs of a model: the later table wins cell by cell."""
    rng = b.rng
    spots = [("a", "gas"), ("a", "chp"), ("a", "boiler"), ("a", "battery"), ("b", "pv"), ("a", "demand"), ("b", "demand"), ("a", "heat_demand")]
    PARS = {"flow_cap_min": ["nodes", "techs"], "area_use_max": ["nodes", "techs"], "lifetime": ["techs"], "cost_flow_out": ["techs", "carriers", "costs"], "available_area": ["nodes"],
            "flow_in_parasitic_eff": ["techs", "carriers"], "cost_om_annual": ["nodes", "techs", "costs"], "source_eff": ["techs", "timesteps"], "own_name": ["techs"]}
    labels = {"carriers": ["electricity", "gas", "heat"], "costs": ["monetary", "co2"], "nodes": ["a", "b"], "timesteps": [t.strftime("%Y-%m-%d %H:%M") for t in mini.times(3)]}
    over = {"data_tables": {}, "techs": {}, "templates": {}}
    dfs, want = {}, {}
    carriers = {"demand": ["electricity"], "heat_demand": ["heat"], "gas": ["gas"], "pv": ["electricity"], "battery": ["electricity"], "boiler": ["gas", "heat"], "chp": ["gas", "electricity", "heat"], "line": ["electricity"]}
    pars = rng.sample(list(PARS), rng.randint(1, 4))
    for i in range(rng.randint(1, 4)):
        p = rng.choice(pars)
        dims = PARS[p]
        cells = {}
        for _ in range(rng.randint(1, 5)):
            n, t = rng.choice(spots)
            e = {d: {"nodes": n, "techs": t, "carriers": rng.choice(carriers[t])}.get(d) or rng.choice(labels[d]) for d in dims}
            cells[tuple(e[d] for d in dims)] = rng.choice(["u", "v"]) if p == "own_name" else round(rng.uniform(0.1, 0.9), 3)
        want.setdefault(p, {}).update(cells)
        cut = rng.randint(1, len(dims))
        rows, cols = list(dims[:cut]), list(dims[cut:])
        rk = sorted({k[:cut] for k in cells})
        ck = sorted({k[cut:] for k in cells})
        name = f"extra{i}"
        dfs[name] = frame(rng, rows, cols, rk, ck, {(k[:cut], k[cut:]): v for k, v in cells.items()}, {})
        t = {"table": name, "rows": rows, "columns": cols or None, "add_dims": {"inputs": p}}
        if not cols:
            t.pop("columns")
        if rng.random() < 0.4:
            over["templates"][f"tmp{i}"] = {k: t.pop(k) for k in rng.sample([k for k in t if k != "table"], rng.randint(1, len(t) - 1))}
            t["template"] = f"tmp{i}"
        over["data_tables"][name] = t
    # technologies defined in YAML for some of the same entries: YAML wins
    yaml = {}
    if "lifetime" in want and rng.random() < 0.5:
        t = rng.choice([k[0] for k in want["lifetime"]])
        over["techs"][t] = {"lifetime": 77}
        yaml[t] = 77
    b.case((tuple(sorted(pars)), len(dfs)))
    detail = {"tables": str(over)[:1200], "frames": str({k: v.to_dict("split") for k, v in dfs.items()})[:1500]}
    base = mini.definition(3)[0]
    m = mini.model(over, nt=3, dfs=dfs)
    given = {t: v.get("lifetime") for t, v in base["techs"].items() if v.get("lifetime") is not None}
    for p, cells in want.items():
        a = m.inputs.get(p)
        if a is None:
            b.check("tables reach the inputs", False, {**detail, "input": p})
            continue
        got = {frozenset(zip(a.dims, k)): v for k, v in upd.as_dict(a).items() if v is not None}
        exp = {}
        for k, v in cells.items():
            e = dict(zip(PARS[p], k))
            if "timesteps" in e:
                e["timesteps"] = np.datetime64(e["timesteps"])
            exp[frozenset(e.items())] = v
        if p == "lifetime":
            for t, v in {**given, **yaml}.items():
                for n in a.nodes.values if "nodes" in a.dims else [None]:
                    exp[frozenset({"techs": t, **({"nodes": n} if n is not None else {})}.items())] = v
        b.check("exactly the defined entries are inputs", set(got) == set(exp), {**detail, "input": p, "unexpected": str([dict(k) for k in set(got) - set(exp)][:4]), "lost": str([dict(k) for k in set(exp) - set(got)][:4])})
        bad = [(dict(k), got[k], exp[k]) for k in set(got) & set(exp) if not same(got[k], exp[k])]
        b.check("the latest definition of an entry is its value", not bad, {**detail, "input": p, "(at, got, expected)": str(bad[:4])})


@bounded("C16", targets=BUILD, trials=100, shards=4, budget_s=60)
def random_lookups(b):
    """Technology lists, carriers and base technologies given by tables."""
    from calliope.preprocess.data_tables import DataTable
    from calliope.schemas.data_table_schema import CalliopeDataTable

    rng = b.rng
    techs = rng.sample(["wind", "sun", "Hydro", "line"], rng.randint(1, 4))
    cells = {}
    for t in techs:
        for c in rng.sample(["power", "heat", "gas"], rng.randint(1, 3)):
            cells[(t, c)] = rng.choice([1, 1, True, 1.0, 0, False]) if rng.random() < 0.85 else np.nan
    keys = list(cells)
    rng.shuffle(keys)
    s = pd.DataFrame({"v": [cells[k] for k in keys]}, index=pd.MultiIndex.from_tuples(keys, names=["techs", "carriers"]))
    b.case((len(techs), tuple(map(str, cells.values()))))
    par = rng.choice(["carrier_in", "carrier_out"])
    t = DataTable("t", CalliopeDataTable.model_validate({"table": "t", "rows": ["techs", "carriers"], "add_dims": {"inputs": par}}), {"t": s})
    got = t.lookup_dict_from_param(par, "carriers")
    want = {}
    for (k, c), v in cells.items():
        if v == v and v:
            want.setdefault(k, []).append(c)
    want = {k: {par: sorted(v)[0] if len(v) == 1 else sorted(v)} for k, v in want.items()}
    b.check("a table of carriers lists exactly the carriers set in it", T.plain(got) == want, {"cells": str(cells), "got": str(T.plain(got)), "expected": str(want)})
    b.check("a table without the lookup gives none", not t.lookup_dict_from_param("base_tech", "carriers"))
    # nodes where a technology is defined: any value there
    nodes = {}
    for n in ["n1", "n2"]:
        for k in techs:
            if rng.random() < 0.7:
                nodes[(n, k)] = rng.choice([1.0, 0.0, np.nan])
    if not nodes:
        return
    f = pd.DataFrame({"v": list(nodes.values())}, index=pd.MultiIndex.from_tuples(list(nodes), names=["nodes", "techs"]))
    t = DataTable("t", CalliopeDataTable.model_validate({"table": "t", "rows": ["nodes", "techs"], "add_dims": {"inputs": "flow_cap_max"}}), {"t": f})
    from calliope.attrdict import AttrDict

    got = T.plain(t.node_dict(AttrDict({k: {"base_tech": "supply"} for k in techs})))
    want = {n: {"techs": {k: None for (x, k), v in nodes.items() if x == n and v == v}} for n in sorted({x for x, _ in nodes})}
    b.check("a technology is at a node exactly where a table has a value for it", got == want, {"cells": str(nodes), "got": str(got), "expected": str(want)})
    td, _ = t.tech_dict()
    b.check("the technologies of a table are its labels", T.plain(td) == {k: {} for k in {k for _, k in nodes}}, {"got": str(td)})
