"""C19: cleaning of inputs."""
import math

import numpy as np
import pandas as pd
import xarray as xr
import z3

from dv.arr import Cell, c_ite, const_cell
from dv.core import And, Iff, Not, Or, SBool
from dv.harness import Raised, same as same_
from dv.registry import bounded, contract

from . import mini
from . import upd
from .common import Only, at as at_, attempt, has, parr

MC = "preprocess.model_data.ModelDataCleaner"
TARGETS = [f"{MC}.{x}" for x in ("clean", "clean_data_from_undefined_members", "add_colors", "add_link_distances", "_get_distance", "_drop_undefined", "_subset_dims", "update_and_resample_dimensions")] + [
    "preprocess.model_data.ModelDTypeUpdater._update_dtypes"]
DIMS = ("nodes", "techs", "carriers")
NAMES = {"flow_cap_max": "number", "p_a": "number", "p_b": "number", "l_text": "text", "l_flag": "flag", "source_unit": "text"}
MATH = {"parameters": {"p_a": {}, "p_b": {}}, "lookups": {"l_text": {"dtype": "string"}, "l_flag": {"dtype": "bool"}}}


def geodesic(la1, lo1, la2, lo2):
    """Vincenty's inverse formula on the WGS84 ellipsoid (metres)."""
    a, f = 6378137.0, 1 / 298.257223563
    b = (1 - f) * a
    U1, U2 = math.atan((1 - f) * math.tan(math.radians(la1))), math.atan((1 - f) * math.tan(math.radians(la2)))
    L = lam = math.radians(lo2 - lo1)
    if la1 == la2 and lo1 == lo2:
        return 0.0
    for _ in range(1000):
        ss = math.hypot(math.cos(U2) * math.sin(lam), math.cos(U1) * math.sin(U2) - math.sin(U1) * math.cos(U2) * math.cos(lam))
        cs = math.sin(U1) * math.sin(U2) + math.cos(U1) * math.cos(U2) * math.cos(lam)
        s = math.atan2(ss, cs)
        sa = math.cos(U1) * math.cos(U2) * math.sin(lam) / ss
        c2a = 1 - sa * sa
        c2m = cs - 2 * math.sin(U1) * math.sin(U2) / c2a if c2a else 0.0
        C = f / 16 * c2a * (4 + f * (4 - 3 * c2a))
        new = L + (1 - C) * f * sa * (s + C * ss * (c2m + C * cs * (-1 + 2 * c2m * c2m)))
        if abs(new - lam) < 1e-13:
            break
        lam = new
    u2 = c2a * (a * a - b * b) / (b * b)
    A = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)))
    B = u2 / 1024 * (256 + u2 * (-128 + u2 * (74 - 47 * u2)))
    ds = B * ss * (c2m + B / 4 * (cs * (-1 + 2 * c2m ** 2) - B / 6 * c2m * (-3 + 4 * ss * ss) * (-3 + 4 * c2m ** 2)))
    return b * A * (s - ds)


def cell(rng, kind, hole):
    if rng.random() < hole:
        return None
    if kind == "text":
        return rng.choice(["x", "yy", "per_cap"])
    if kind == "flag":
        return rng.random() < 0.5
    return rng.choice([0.0, 1.0, float("inf"), -2.0, round(rng.uniform(0, 9), 3)])


def array(rng, dims, labels, kind, hole):
    shape = [len(labels[d]) for d in dims]
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        v = cell(rng, kind, hole)
        out[ix] = (np.nan if kind == "number" or rng.random() < 0.5 else None) if v is None else v
    if kind == "number" and rng.random() < 0.8:
        out = out.astype(float)
    if kind == "flag" and rng.random() < 0.5:
        out = np.array([[x is True] for x in out.ravel()]).reshape(shape)
    return xr.DataArray(out, dims=dims, coords={d: labels[d] for d in dims}, attrs={"note": "kept"} if rng.random() < 0.5 else {})


def random_inputs(rng, b):
    """A dataset as the builder hands it to the cleaner: existence by carriers, random data with holes."""
    labels = {"nodes": ["n1", "n2", "north", "n4"][:rng.randint(1, 4)], "techs": rng.sample(["wind", "sun", "pump", "Hydro"], rng.randint(1, 4)), "carriers": ["power", "heat", "gas"][:rng.randint(1, 3)],
              "costs": ["monetary", "co2"], "timesteps": pd.date_range("2005-01-01", periods=3, freq="h")}
    if rng.random() < 0.5:
        rng.shuffle(labels["nodes"])
    base = {t: rng.choice(["supply", "demand", "storage", "conversion"]) for t in labels["techs"]}
    links = {}
    if len(labels["nodes"]) > 1:
        for k in range(rng.randint(0, 3)):
            t = f"link{k}"
            labels["techs"].insert(rng.randint(0, len(labels["techs"])), t)
            base[t] = "transmission"
            links[t] = (*rng.sample(labels["nodes"], 2), rng.choice(labels["carriers"]), rng.choice(labels["carriers"]), rng.random() < 0.3)
    where = {"carrier_in": set(), "carrier_out": set()}
    q = rng.choice([0.1, 0.3, 0.6])
    for n in labels["nodes"]:
        for t in labels["techs"]:
            if t in links:
                continue
            for c in labels["carriers"]:
                for w in where:
                    if rng.random() < q * 0.6:
                        where[w].add((n, t, c))
    for t, (x, y, ci, co, one) in links.items():
        for n in (x, y):
            if not (one and n == y):
                where["carrier_in"].add((n, t, ci))
            if not (one and n == x):
                where["carrier_out"].add((n, t, co))
    if not where["carrier_in"] | where["carrier_out"]:
        where["carrier_out"].add((labels["nodes"][0], next(t for t in labels["techs"] if t not in links), labels["carriers"][0]))
    ds = xr.Dataset(coords=labels)
    style = rng.choice(["bool", "nan", "none"])
    for w, cells in where.items():
        dims = rng.sample(DIMS, 3)
        a = np.empty([len(labels[d]) for d in dims], dtype=object)
        for ix in np.ndindex(*a.shape):
            e = {d: labels[d][i] for d, i in zip(dims, ix)}
            a[ix] = True if tuple(e[d] for d in DIMS) in cells else {"bool": False, "nan": rng.choice([np.nan, False]), "none": None}[style]
        ds[w] = (dims, a.astype(bool) if style == "bool" else a)
    ds["base_tech"] = ("techs", np.array([base[t] for t in labels["techs"]], dtype=object))
    for name, kind in NAMES.items():
        if rng.random() < 0.7:
            dims = rng.sample(list(labels), rng.randint(0, 4))
            hole = rng.choice([0, 0.3, 0.7, 1])
            if hole == 1 and kind == "flag":
                hole = 0.5
            ds[name] = array(rng, dims, labels, kind, hole)
    if rng.random() < 0.8:
        miss = rng.choice([0, 0, 0.2])
        none = [rng.random() < miss for _ in labels["nodes"]]
        ds["latitude"] = ("nodes", [np.nan if x else round(rng.uniform(-70, 70), 4) for x in none])
        ds["longitude"] = ("nodes", [np.nan if x else round(rng.uniform(-60, 60), 4) for x in none])
    if rng.random() < 0.5:
        ds["distance"] = array(rng, ["techs"], labels, "number", 0.5)
    if rng.random() < 0.6:
        ds["color"] = ("techs", np.array([rng.choice(["#123456", "red", np.nan, None]) for _ in labels["techs"]], dtype=object))
    ds["p_time"] = ("timesteps", [1.0, 2.0, 3.0])
    return ds, labels, base, links, where


def same(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or (math.isfinite(a) and math.isfinite(b) and math.isclose(a, b, rel_tol=1e-12))


_M = {}


def settings():
    if not _M:
        m = mini.model(math=MATH)
        _M.update(config=m.config.init, math=m.math.build)
    return _M["config"], _M["math"]


@bounded("C19", targets=TARGETS, trials=600, shards=4, budget_s=200)
def random_datasets(b):
    """Random datasets before cleaning: the existence matrix, every cell, labels, distances and colours against a plain reading of the rules."""
    from calliope.preprocess.model_data import ModelDataCleaner
    from calliope.schemas import runtime_attrs_schema

    rng = b.rng
    config, m = settings()
    ds, labels, base, links, where = random_inputs(rng, b)
    unit = rng.choice(["km", "m"])
    subset = {}
    if rng.random() < 0.25 and len(labels["nodes"]) > 1:
        keep = rng.sample(labels["nodes"], rng.randint(1, len(labels["nodes"])))
        subset = {"nodes": [n for n in labels["nodes"] if n in keep]}
    elif rng.random() < 0.15:
        subset = {"techs": [t for t in labels["techs"] if rng.random() < 0.7] or [labels["techs"][0]]}
    exist = where["carrier_in"] | where["carrier_out"]
    left = set(exist)
    if subset:
        d = next(iter(subset))
        i = DIMS.index(d)
        if not all(x in {k[i] for k in exist} for x in subset[d]):
            subset = {}  # labels that the model does not have
        else:
            left = {k for k in exist if k[i] in subset[d]}
            left = {k for k in left if k[1] not in links or len({n for n, t, _ in left if t == k[1]}) == 2}
    if not left:
        return
    held = ds.copy(deep=True)
    detail = {"exists": sorted(exist), "base": base, "subset": subset, "dims": {str(v): list(a.dims) for v, a in ds.data_vars.items()}}
    b.case((sorted(exist), str(subset), unit))
    cl = ModelDataCleaner(config.update({"distance_unit": unit, **({"subset": subset} if subset else {})}), ds, m, runtime_attrs_schema.CalliopeRuntime())
    cl.clean()
    out = cl.dataset
    b.check("the dataset given is unchanged", ds.identical(held), detail)
    pick = lambda a: {tuple(dict(zip(a.dims, k))[d] for d in DIMS) for k, v in upd.as_dict(a).items() if v}
    got = pick(out.definition_matrix)
    b.check("the existence matrix is true exactly where a technology has an inflow or outflow carrier", got == left, {**detail, "missing": sorted(left - got)[:4], "unexpected": sorted(got - left)[:4]})
    b.check("the existence matrix is Boolean", out.definition_matrix.dtype.kind == "b", detail)
    for w in where:
        g = pick(out[w]) if w in out else set()
        b.check(f"{w} is kept", g == where[w] & left, {**detail, "got": sorted(g)})
    for i, d in enumerate(DIMS):
        want = [x for x in labels[d] if x in {k[i] for k in left}]
        b.check("labels that no defined combination uses are dropped, the others kept", list(out[d].values) == want, {**detail, "dim": d, "got": list(out[d].values), "expected": want})
        if list(out[d].values) != want:
            return
    for n in list(NAMES) + ["base_tech", "latitude", "longitude"]:
        if n not in ds:
            b.check("no other inputs appear", n not in out, {**detail, "input": n})
            continue
        a = ds[n]
        flag = NAMES.get(n) == "flag"
        want = {}
        for k, v in upd.as_dict(a).items():
            e = dict(zip(a.dims, k))
            if any(e[d] not in out[d].values for d in DIMS if d in e):
                continue
            inside = any(all(e.get(d, x) == x for d, x in zip(DIMS, c)) for c in left)
            want[k] = (bool(v) if inside and v is not None else False) if flag else (v if inside else None)
        before = [v for k, v in upd.as_dict(a).items() if v is not None and any(all(dict(zip(a.dims, k)).get(d, x) == x for d, x in zip(DIMS, c)) for c in left)]
        if n not in out:
            b.check("inputs with data are kept", not any(v is not None for v in want.values()), {**detail, "input": n})
            continue
        b.check("inputs without any data are dropped", before or flag, {**detail, "input": n})
        g = {tuple(dict(zip(out[n].dims, k))[d] for d in a.dims): v for k, v in upd.as_dict(out[n]).items()}
        bad = [(k, g.get(k), v) for k, v in want.items() if not same(g.get(k), v)]
        b.check("data inside the existence matrix is unchanged, data outside it removed", not bad and g.keys() == want.keys(), {**detail, "input": n, "(at, got, expected)": str(bad[:4])})
    # distances
    given = {k[0]: v for k, v in upd.as_dict(ds["distance"]).items()} if "distance" in ds else {}
    full = bool(exist) and "latitude" in out and any(base[t] == "transmission" for _, t, _ in exist)
    lat, lon = (dict(zip(ds.nodes.values, ds[x].values)) if x in ds else {} for x in ("latitude", "longitude"))
    g = {k[0]: v for k, v in upd.as_dict(out["distance"]).items()} if "distance" in out else {}
    for t in out.techs.values:
        v = given.get(t)
        w = None
        if v is None and t in links and lat and "latitude" in out:
            x, y = links[t][:2]
            if lat[x] == lat[x] and lat[y] == lat[y]:
                w = geodesic(lat[x], lon[x], lat[y], lon[y]) / (1000 if unit == "km" else 1)
        if v is not None:
            b.check("distances given are kept", same(g.get(t), v), {**detail, "tech": t, "given": v, "got": g.get(t)})
        elif w is None:
            b.check("distances that cannot be calculated stay missing", g.get(t) is None, {**detail, "tech": t, "got": g.get(t)})
        else:
            b.check("missing distances are filled from the coordinates of the ends, in the unit asked for", g.get(t) is not None and math.isclose(g[t], w, rel_tol=1e-7), {**detail, "link": links[t], "got": g.get(t), "expected": w, "unit": unit})
    # colours
    g = {k[0]: v for k, v in upd.as_dict(out["color"]).items()}
    given = {k[0]: v for k, v in upd.as_dict(ds["color"]).items()} if "color" in ds else {}
    b.check("every technology has a colour and given ones are kept", set(g) == set(out.techs.values) and all(isinstance(v, str) and v and v != "nan" for v in g.values()) and all(g[t] == v for t, v in given.items() if v is not None and t in g),
            {**detail, "got": g, "given": given})
    b.check("colours that are filled in are hexadecimal colours", all(len(g[t]) == 7 and g[t][0] == "#" for t in g if given.get(t) is None), {**detail, "got": g})
    # cleaning again changes nothing
    again = ModelDataCleaner(config.update({"distance_unit": unit, **({"subset": subset} if subset else {})}), out, m, cl.runtime)
    again.clean()
    drop = lambda d: d.drop_vars([v for v, a in d.data_vars.items() if a.isnull().all()])
    b.check("cleaning again changes nothing", drop(again.dataset).identical(drop(out)), detail)


# ---------------------------------------------------------------- proofs


@contract("C19", targets=[f"{MC}.clean_data_from_undefined_members", f"{MC}._mask_undefined"])
def masking(h):
    """Data is kept exactly where a technology at a node with a carrier exists that it may refer to; flags become false elsewhere."""
    import calliope.preprocess.model_data as mod

    C = mod.ModelDataCleaner
    has(C, "clean_data_from_undefined_members", "_drop_undefined")
    nodes, techs, carriers, costs, ts = (h.dim(x) for x in ("nodes", "techs", "carriers", "costs", "spans"))
    D = {"nodes": nodes, "techs": techs, "carriers": carriers, "costs": costs, "spans": ts}
    cin, cout = h.array("carrier_in", [nodes, techs, carriers], "b"), h.array("carrier_out", [nodes, techs, carriers], "b")
    shapes = {"p_all": ("nodes", "techs", "carriers"), "p_ntc": ("nodes", "techs"), "p_t": ("techs",), "p_n": ("nodes",), "p_cc": ("carriers", "costs"),
              "p_nt": ("nodes", "techs", "spans"), "p_s": ("spans",), "p_0": ()}
    src = {n: h.array(n, [D[d] for d in dims], "f", null=True, inf=True) for n, dims in shapes.items()}
    flags = {"f_nt": ("nodes", "techs"), "f_t": ("techs",), "f_0": ()}
    src.update({n: h.array(n, [D[d] for d in dims], "b") for n, dims in flags.items()})
    c = C.__new__(C)
    c.dataset = h.dataset([cin, cout, *src.values()], D.values())
    out = []

    def drop(ds, def_matrix):
        out.append((ds, def_matrix))
        return ds

    with h.patch(mod), h.stub((C, "_update_dtypes", lambda self, ds, id_="": ds), (C, "_drop_undefined", staticmethod(drop))):
        r = attempt(h, c.clean_data_from_undefined_members)
    if isinstance(r, Raised):
        h.prove("does not raise", False)
        return
    h.prove("undefined members are dropped once, after masking", len(out) == 1 and c.dataset is out[0][0])
    ds, dm = out[0]
    full = [nodes, techs, carriers]
    defined = lambda env: Or(h.cell(cin, env).val, h.cell(cout, env).val)
    h.prove("a member exists where it has an inflow or outflow carrier", h.forall(full, lambda env: Iff(at_(h, dm, env).val, defined(env))))
    h.prove("no data is added or lost as a whole", set(ds.data_vars) == {"carrier_in", "carrier_out", *src})
    for n, dims in {**shapes, **flags}.items():
        over = [d.name for d in full if d.name not in dims]
        ref = parr(full, lambda env: Cell("b", defined(env)), "b").any(over)

        def want(env, n=n, ref=ref):
            keep, v = at_(h, ref, env).val, h.cell(src[n], env)
            return Cell("b", And(keep, v.val)) if n in flags else c_ite(keep, v, const_cell(float("nan")))

        extra = [d for d in ref.dims if d not in dims]
        h.prove(f"{n}: dimensions stay", set(ds[n].dims) == set(dims) and not extra)
        h.prove(f"{n}: kept exactly where something is defined", h.forall([D[d] for d in dims], lambda env: same_(h.cell(ds[n], env), want(env))))
        if n in flags:
            h.prove(f"{n}: stays a flag", ds[n].dtype.kind == "b")


@contract("C19", targets=["preprocess.model_data.ModelDTypeUpdater._update_dtypes"])
def flags_are_boolean(h):
    """Lookups of type bool hold true or false everywhere; missing is false; data without a definition is left alone."""
    import calliope.preprocess.model_data as mod

    C = mod.ModelDataCleaner
    nodes = h.dim("nodes")
    kind = h.choose("kind", ["B", "b", "O"])
    f, other = h.array("flag", [nodes], kind, null=kind != "b"), h.array("other", [nodes], "f", null=True)
    c = C.__new__(C)

    def find(name, subset=None):
        if name != "flag":
            raise KeyError(name)
        return Only(dtype="bool", _group="lookups")

    c.math, c.config = Only(find=find), Only()
    ds = h.dataset([f, other], [nodes])
    with h.patch(mod):
        r = attempt(h, c._update_dtypes, ds)
    if isinstance(r, Raised):
        h.prove("does not raise", False)
        return
    h.prove("data without a definition is unchanged", h.same_array(r["other"], other))

    def want(env):
        v = h.cell(f, env)
        return Cell("b", And(Not(v.null), v.val if z3.is_bool(v.val) else v.val != 0))

    h.prove("true exactly where it was given and not false", h.forall([nodes], lambda env: same_(h.cell(r["flag"], env), want(env))))
    h.prove("the array is boolean", r["flag"].dtype.kind == "b")


class Token:
    """A configuration section of which only equality and its content as a whole are known."""

    def __init__(self, name, same):
        self.name, self.same = name, same

    def __eq__(self, o):
        return self.same if isinstance(o, Token) else NotImplemented

    def __ne__(self, o):
        return SBool(Not(self.same)) if isinstance(o, Token) else NotImplemented

    __hash__ = None

    def model_dump(self):
        return (self.name, "dump")


@contract("C19", targets=[f"{MC}.update_and_resample_dimensions"])
def adjustment_steps(h):
    """Time resolution, subset, resampling and clustering: each exactly when it is new, in that order, and remembered."""
    import calliope.preprocess.model_data as mod
    from calliope.exceptions import ModelError
    from dv.core import Unsupported

    C = mod.ModelDataCleaner
    has(C, "_subset_dims", "_resample_dims")
    for n in ("add_inferred_time_params", "cluster"):
        if not hasattr(mod.time, n):
            raise Unsupported(n)
    times, before = h.bool("there are timesteps"), h.bool("instantiated before")
    sub, res = h.bool("same subset"), h.bool("same resampling")
    old_c, new_c = h.choose("clustered by", [None, "a"]), h.choose("cluster by", [None, "a", "b"])
    did = []

    def step(name):
        def fn(*a, **k):
            did.append((name, a[1:]))
            return a[0] if a else None
        return fn

    c = C.__new__(C)
    kind = lambda yes: Only(dtype=Only(kind="M" if yes else "U"))
    first = Only(coords={"nodes": kind(False), "timesteps": kind(times)} if times else {"nodes": kind(False)}, stage=0)
    c.dataset = first
    ds = {"res": Only(stage=1), "clu": Only(stage=2)}

    def infer(d):
        did.append("resolution")
        return ds["res"]

    def clu(d, par, fmt):
        did.append(("cluster", par, fmt, d))
        return ds["clu"]

    given = []
    old_rt = Only(instantiated=before, subset=Token("old subset", sub), resample=Token("old resample", res), time_cluster=old_c, update=lambda d: (given.append(d), Only(of=d))[1])
    c.runtime = old_rt
    c.config = Only(subset=Token("subset", sub), resample=Token("resample", res), time_cluster=new_c, datetime_format="FMT")
    with h.stub((mod.time, "add_inferred_time_params", infer), (mod.time, "cluster", clu),
                (C, "_subset_dims", lambda self: did.append("subset")), (C, "_resample_dims", lambda self: did.append("resample"))):
        r = attempt(h, c.update_and_resample_dimensions)
    if isinstance(r, Raised):
        h.prove("refused only with a clear error", r.isa(ModelError))
        h.prove("refused only without timesteps or when the clustering changes", Or(Not(times), old_c is not None and old_c != new_c))
        h.prove("nothing is remembered", not given and c.runtime is old_rt)
        return
    h.prove("models without timesteps are refused", times)
    h.prove("clustered data cannot be clustered differently", old_c is None or old_c == new_c)
    n = lambda x: sum(d == x or (isinstance(d, tuple) and d[0] == x) for d in did)
    h.prove("the resolution is derived from the source timesteps, once", Iff(n("resolution") == 1, Not(before)) if n("resolution") < 2 else False)
    h.prove("subset exactly when it is new", Iff(n("subset") == 1, Not(sub)) if n("subset") < 2 else False)
    h.prove("resampled exactly when it is new", Iff(n("resample") == 1, Not(res)) if n("resample") < 2 else False)
    wants = old_c is None and new_c is not None
    h.prove("clustered exactly when it is new", n("cluster") == int(wants))
    order = ["resolution", "subset", "resample", "cluster"]
    names = [d if isinstance(d, str) else d[0] for d in did]
    h.prove("in that order", names == sorted(names, key=order.index))
    if wants:
        cl = [d for d in did if isinstance(d, tuple)][0]
        h.prove("clustered by the data and time format given", cl[1:3] == ("a" if new_c == "a" else "b", "FMT") and c.dataset is ds["clu"])
    allg = {k: v for g in given for k, v in g.items()}
    exp = {}
    if "subset" in names:
        exp["subset"] = ("subset", "dump")
    if "resample" in names:
        exp["resample"] = ("resample", "dump")
    if wants:
        exp["time_cluster"] = new_c
    h.prove("what was applied is remembered", allg == exp)
