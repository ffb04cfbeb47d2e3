"""C17: time subsetting, resampling and clustering."""
import math
import warnings

import numpy as np
import pandas as pd

from dv.registry import bounded

from . import mini
from . import upd

TARGETS = ["preprocess.time.resample", "preprocess.time.cluster", "preprocess.time._lookup_clusters", "preprocess.time.add_inferred_time_params", "preprocess.time.check_time_subset", "preprocess.time._datetime_index",
           "preprocess.model_data.ModelDataCleaner._subset_dims", "preprocess.model_data.ModelDataCleaner._resample_dims", "preprocess.model_data.ModelDataCleaner.update_and_resample_dimensions",
           "model.Model._model_def_to_inputs", "model.Model.__init__"]

MATH = {"parameters": {"my_mean": {"resample_method": "mean"}, "my_sum": {"resample_method": "sum"}, "my_first": {}},
        "lookups": {"my_tag": {"dtype": "string"}, "my_switch": {"dtype": "bool"}}}
METHOD = {"sink_use_equals": "sum", "source_use_max": "sum", "my_mean": "mean", "my_sum": "sum", "my_first": "first", "my_tag": "first", "my_switch": "first"}


def gen(rng, par):
    if par == "my_tag":
        return rng.choice(["x", "yy", "z"])
    if par == "my_switch":
        return rng.random() < 0.5
    return rng.choice([0.0, round(rng.uniform(0, 9), 3), round(rng.uniform(0, 9), 3)])


def table(rng, t, par, techs, holes, fmt):
    nodes = {"sink_use_equals": ["a", "b"], "source_use_max": ["b"]}.get(par) or rng.choice([["a"], ["a", "b"], None])
    idx = pd.Index(t.strftime(fmt), name="timesteps")
    q = 0 if par in ("sink_use_equals", "source_use_max", "my_switch") and rng.random() < 0.8 else holes
    vals = lambda: [np.nan if rng.random() < q else gen(rng, par) for _ in t]
    if nodes is None:
        df = pd.DataFrame({"v": vals()}, index=idx)
        return {"rows": "timesteps", "add_dims": {"inputs": par}}, df, None
    df = pd.DataFrame({n: vals() for n in nodes}, index=idx)
    df.columns.name = "nodes"
    return {"rows": "timesteps", "columns": "nodes", "add_dims": {"inputs": par, **({"techs": techs} if techs else {})}}, df, nodes


# --- plain reading: {input: {(other labels): {time: value}}} -----------------------------------------------------------
def series(m, name):
    a = m.inputs[name]
    out = {}
    other = [d for d in a.dims if d != "timesteps"]
    for k, v in upd.as_dict(a).items():
        e = dict(zip(a.dims, k))
        out.setdefault(tuple((d, e[d]) for d in sorted(other)), {})[pd.Timestamp(e["timesteps"])] = v
    return out


def in_range(x, lo, hi):
    """Inclusive range of ISO strings of any precision."""
    p = lambda s: pd.Period(s)
    return p(lo).start_time <= x <= p(hi).end_time


def bins(times, freq):
    """{source time: start of its interval}, intervals counted from midnight of the first day."""
    o = times[0].normalize()
    f = pd.Timedelta(freq)
    return {x: o + f * ((x - o) // f) for x in times}


def aggregate(vals, method):
    vals = [v for v in vals if v is not None]
    if not vals:
        return None
    if method == "sum":
        return sum(vals)
    if method == "mean":
        return sum(vals) / len(vals)
    return vals[0]


def eq(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b or (a in (None, False) and b in (None, False))
    return math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=1e-9)


def check(b, m, times, data, res, weights, base, detail, tag):
    got = [pd.Timestamp(x) for x in m.inputs.timesteps.values]
    b.check(f"{tag}: timesteps", got == times, {**detail, "got": str(got[:8]), "expected": str(times[:8]), "n": (len(got), len(times))})
    if got != times:
        return False
    for n, s in data.items():
        alive = any(v is not None for c in s.values() for v in c.values())
        if n not in m.inputs:
            b.check(f"{tag}: inputs are kept", not alive, {**detail, "input": n})
            continue
        have = series(m, n)
        bad = [(k, str(x), have.get(k, {}).get(x), c.get(x)) for k, c in s.items() for x in times if not eq(have.get(k, {}).get(x), c.get(x))]
        b.check(f"{tag}: values", not bad, {**detail, "input": n, "(at, got, expected)": str(bad[:4])})
        more = [k for k in have if k not in s and dict(k).get("techs") in (None, "demand", "pv") and any(v not in (None, False) for v in have[k].values())]
        b.check(f"{tag}: nothing is added", not more, {**detail, "input": n, "at": str(more[:4])})
    r = {k[0]: v for k, v in zip([(x,) for x in times], m.inputs.timestep_resolution.values)}
    b.check(f"{tag}: resolution", all(math.isclose(r[x], res[x], rel_tol=1e-9) for x in times), {**detail, "got": str(list(r.items())[:5]), "expected": str(list(res.items())[:5])})
    w = dict(zip(times, m.inputs.timestep_weights.values))
    b.check(f"{tag}: weights", all(w[x] == weights[x] for x in times), {**detail, "got": str(list(w.values())[:30]), "expected": str(list(weights.values())[:30])})
    for n, a in base.data_vars.items():
        if "timesteps" not in a.dims:
            b.check(f"{tag}: inputs without time are unaffected", n in m.inputs and a.equals(m.inputs[n].transpose(*a.dims)) , {**detail, "input": n})
    return True


@bounded("C17", targets=TARGETS, trials=100, shards=4, budget_s=200)
def random_series(b):
    """Random time series (length, spacing, start, gaps), subset, resampled and clustered at once or one after the other."""
    import calliope

    rng = b.rng
    clustering = rng.random() < 0.4
    freq = rng.choice(["1h", "2h", "6h"] if clustering else ["15min", "30min", "1h", "2h", "3h", "1D"])
    step = pd.Timedelta(freq)
    if clustering:
        n = int(rng.randint(2, 6) * pd.Timedelta("1D") / step)
        start = pd.Timestamp("2005-01-30")
    else:
        n = rng.randint(2, 30)
        start = pd.Timestamp("2005-01-31") + (rng.choice([0, 0, 1, 5]) * step if freq != "1D" else pd.Timedelta(0))
    t = pd.date_range(start, periods=n, freq=freq)
    fmt, cfgfmt = rng.choice([("%Y-%m-%d %H:%M:%S", "ISO8601"), ("%Y-%m-%d %H:%M", "ISO8601"), ("%d/%m/%Y %H:%M", "%d/%m/%Y %H:%M")])
    holes = rng.choice([0, 0.3])
    over = {"data_tables": {}, "config": {"init": {"datetime_format": cfgfmt}}}
    dfs = {}
    for par, name, techs in [("sink_use_equals", "demand", "demand"), ("source_use_max", "sun", "pv")]:
        over["data_tables"][name], dfs[name], _ = table(rng, t, par, techs, 0, fmt)
        over["data_tables"][name]["table"] = name
    for par in rng.sample(["my_mean", "my_sum", "my_first", "my_tag", "my_switch"], rng.randint(0, 4)):
        d, df, nodes = table(rng, t, par, None, holes, fmt)
        if all(v != v for v in df.to_numpy().ravel().tolist()):
            df.iloc[0, 0] = gen(rng, par)
        over["data_tables"]["x_" + par] = {**d, "table": "x_" + par}
        dfs["x_" + par] = df
    days = sorted({x.normalize() for x in t})
    cmap = {}
    if clustering:
        reps = rng.sample(days, rng.randint(1, len(days)))
        cmap = {d: rng.choice(reps) for d in days}
        dfmt = "%Y-%m-%d"
        if cfgfmt != "ISO8601":
            dfmt = "%d/%m/%Y"
            over["config"]["init"]["date_format"] = dfmt
        f = pd.DataFrame({"v": [v.strftime(dfmt) for v in cmap.values()]}, index=pd.Index([k.strftime(dfmt) for k in cmap], name="datesteps"))
        over["data_tables"]["days"] = {"table": "days", "rows": "datesteps", "add_dims": {"inputs": "my_days"}}
        dfs["days"] = f
    m0 = mini.model(over, nt=3, dfs=dfs, math=MATH)
    data = {p: series(m0, p) for p in METHOD if p in m0.inputs and "timesteps" in m0.inputs[p].dims}
    raw = {}
    for k, d in over["data_tables"].items():
        p = d["add_dims"]["inputs"]
        if p not in METHOD:
            continue
        for col in dfs[k].columns:
            key = tuple(sorted([*([("nodes", col)] if "columns" in d else []), *([("techs", d["add_dims"]["techs"])] if "techs" in d["add_dims"] else [])]))
            raw.setdefault(p, {})[key] = {x: (None if isinstance(v, float) and v != v else v) for x, v in zip(t, dfs[k][col])}
    hours = step / pd.Timedelta("1h")
    times = list(t)
    res = {x: hours for x in times}
    if n == 1:
        res = {times[0]: 1.0}
    one = {x: 1 for x in times}
    detail = {"start": str(start), "freq": freq, "n": n, "format": fmt, "tables": str(over["data_tables"])[:500]}
    b.case((freq, n, clustering))
    if not check(b, m0, times, raw, res, one, m0.inputs, detail, "as loaded"):
        return
    cfg = {}
    # subset
    sub = None
    if rng.random() < 0.6:
        i, j = sorted([rng.randrange(n), rng.randrange(n)])
        if clustering:
            keep = sorted(rng.sample(range(len(days)), rng.randint(1, len(days))))
            lo, hi = days[keep[0]], days[keep[-1]]
            sub = [lo.strftime("%Y-%m-%d"), hi.strftime("%Y-%m-%d")]
            if any(cmap[d] < lo or cmap[d] > hi for d in days if lo <= d <= hi):
                sub = None
            else:
                cfg["subset"] = {"timesteps": sub, "datesteps": list(sub)}
                cmap = {d: r for d, r in cmap.items() if lo <= d <= hi}
        else:
            p = lambda x: x.strftime(rng.choice(["%Y-%m-%d %H:%M:%S", "%Y-%m-%d %H:%M", "%Y-%m-%d", "%Y-%m"]))
            sub = [p(times[i]), p(times[j])]
            cfg["subset"] = {"timesteps": sub}
        if sub:
            times = [x for x in times if in_range(x, *sub)]
    if sub and not times:
        return
    stages = []
    R = {p: {k: {x: c[x] for x in times} for k, c in s.items()} for p, s in raw.items()}
    if sub:
        stages.append(({"subset": cfg["subset"]}, times, R, {x: hours for x in times}, {x: 1 for x in times}))
    to = None
    if rng.random() < 0.7:
        to = rng.choice([f for f in (["6h", "12h", "24h", "1D", "2h"] if clustering else ["1h", "2h", "3h", "5h", "6h", "12h", "1D", "24h", "2D"]) if pd.Timedelta(f) >= step])
        if clustering and to == "2D":
            to = None
    if to:
        bn = bins(times, to)
        lab = list(pd.date_range(bn[times[0]], bn[times[-1]], freq=to))
        src = {x: [y for y in times if bn[y] == x] for x in lab}
        R = {p: {k: {x: aggregate([c[y] for y in src[x]], METHOD[p]) for x in lab} for k, c in s.items()} for p, s in R.items()}
        rs = {x: hours * len(src[x]) for x in lab}
        cfg["resample"] = {"timesteps": to}
        times = lab
        stages.append(({"resample": cfg["resample"]}, times, R, rs, {x: 1 for x in times}))
    hours_ = stages[-1][3] if stages else res
    if clustering:
        keep = [x for x in times if x.normalize() in set(cmap.values())]
        R = {p: {k: {x: c[x] for x in keep} for k, c in s.items()} for p, s in R.items()}
        w = {x: sum(1 for r in cmap.values() if r == x.normalize()) for x in keep}
        stages.append(({"time_cluster": "my_days"}, keep, R, {x: hours_[x] for x in keep}, w))
        cfg["time_cluster"] = "my_days"
    if not stages:
        return
    b.case((freq, n, str(to), bool(sub), clustering))
    detail.update(subset=sub, resample=to, cluster={str(k)[:10]: str(v)[:10] for k, v in cmap.items()})
    skip = {"my_days"} if clustering else set()
    plain = m0.inputs.drop_vars([v for v in m0.inputs.data_vars if "datesteps" in m0.inputs[v].dims])
    final = stages[-1]
    way = rng.choice(["at once", "from inputs", "step by step"])
    held = m0.inputs.copy(deep=True)
    if way == "at once":
        m = mini.model(over, nt=3, dfs=dfs, math=MATH, **cfg)
        ok = check(b, m, *final[1:], plain, detail, "at initialisation")
    elif way == "from inputs":
        m = calliope.Model(inputs=m0.inputs, attrs=m0.all_attrs, **cfg)
        ok = check(b, m, *final[1:], plain, detail, "from the inputs of another model")
    else:
        m, done = m0, {}
        for k in stages:
            done.update(k[0])
            m = calliope.Model(inputs=m.inputs, attrs=m.all_attrs, **k[0])
            ok = check(b, m, *k[1:], plain, detail, "step by step " + next(iter(k[0])))
            if not ok:
                break
    b.check("the inputs of the first model are unchanged", m0.inputs.identical(held), detail)
    if not ok:
        return
    if clustering:
        order = sorted(set(cmap.values()))
        num = {r: i for i, r in enumerate(order)}
        got = dict(zip(final[1], m.inputs.timestep_cluster.values))
        b.check("each kept timestep knows its cluster", all(got[x] == num[x.normalize()] for x in final[1]), {**detail, "got": str(list(got.values())[:20])})
        dc = {pd.Timestamp(x): v for x, v in zip(m.inputs.datesteps.values, m.inputs.lookup_datestep_cluster.values)}
        b.check("every date is mapped to the cluster of its representative", dc == {d: num[r] for d, r in cmap.items()}, {**detail, "got": str(dc)})
        b.check("clusters are numbered", list(m.inputs.clusters.values) == list(range(len(order))), detail)
        by = {}
        for x in final[1]:
            by.setdefault(x.normalize(), []).append(x)
        first = dict(zip(final[1], m.inputs.cluster_first_timestep.values))
        b.check("first timesteps of clusters", all(bool(first[x]) == (x == min(by[x.normalize()])) for x in final[1]), detail)
        lastl = dict(zip(final[1], m.inputs.lookup_cluster_last_timestep.values))
        b.check("the first timestep of each cluster points to its last", all((pd.Timestamp(lastl[x]) == max(by[x.normalize()])) if x == min(by[x.normalize()]) else pd.isnull(lastl[x]) for x in final[1]),
                {**detail, "got": str(lastl)[:400]})
        ll = {pd.Timestamp(x): pd.Timestamp(v) for x, v in zip(m.inputs.datesteps.values, m.inputs.lookup_datestep_last_cluster_timestep.values)}
        b.check("every date points to the last timestep of its representative", ll == {d: max(by[r]) for d, r in cmap.items()}, {**detail, "got": str(ll)[:400]})
        tot = float((m.inputs.timestep_resolution * m.inputs.timestep_weights).sum())
        b.check("clustering preserves the represented hours", math.isclose(tot, 24 * len(cmap)), {**detail, "got": tot})
    elif to:
        tot = float((m.inputs.timestep_resolution * m.inputs.timestep_weights).sum())
        n0 = len([x for x in t if not sub or in_range(x, *sub)])
        b.check("resampling preserves the represented hours", math.isclose(tot, hours * n0), {**detail, "got": tot, "expected": hours * n0})


@bounded("C17", targets=TARGETS[4:6] + TARGETS[6:7], trials=120, shards=4, budget_s=60)
def refused_subsets(b):
    """Subsets that are malformed or hold no data of the model are refused."""
    from calliope.exceptions import ModelError
    from calliope.preprocess import time

    rng = b.rng
    t = pd.date_range("2005-01-10", periods=rng.randint(1, 60), freq=rng.choice(["1h", "6h", "1D"]))
    d = lambda k: (pd.Timestamp("2005-01-10") + pd.Timedelta(days=k)).strftime(rng.choice(["%Y-%m-%d", "%Y-%m-%d %H:%M"]))
    kind = rng.choice(["before", "after", "length", "format", "overlap"])
    last = (t[-1].normalize() - pd.Timestamp("2005-01-10")).days
    s = {"before": [d(-9), d(-1)], "after": [d(last + 1), d(last + 5)], "length": [d(0)] * rng.choice([1, 3]), "format": [rng.choice(["10/01/2005", "x"]), d(1)], "overlap": [d(rng.randint(-3, last)), d(last + rng.randint(0, 4))]}[kind]
    b.case((kind, len(t)))
    try:
        time.check_time_subset(t, s)
        b.check("subsets that are malformed or hold no data are refused", kind == "overlap", {"subset": s, "range": [str(t[0]), str(t[-1])]})
    except ModelError as e:
        b.check("subsets overlapping the data are accepted", kind != "overlap", {"subset": s, "error": str(e)[:200]})
