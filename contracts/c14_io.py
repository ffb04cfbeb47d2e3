"""C14: saving and loading of models and definitions."""
import copy
import datetime
import math
import pathlib

import numpy as np
import pandas as pd
import xarray as xr

from dv.registry import bounded

from . import mini
from . import trees as T
from . import upd

NC = ["io.save_netcdf", "io.read_netcdf", "io._serialise", "io._deserialise", "io._pop_serialised_list"]
YAML = ["io.to_yaml", "io.read_rich_yaml", "io._yaml_load", "io._resolve_yaml_imports"]
TEXT = ["x", "", "1", "1.0", "1e3", "true", "no", "null", "None", "~", "nan", ".inf", "2005-01-01", "a: b", "# c", "- x", "'q'", '"', "two words ", " lead", "line\nbreak", "tail\n", "é", "12:30:00", "0x1f", "010", "[1]", "{a", "!x", "&y", "*z", "%", "@", "a,b", "_"]


# --- data ---------------------------------------------------------------------------------------------------------------
def attr_value(rng, depth=2):
    k = rng.choice(["text", "bool", "none", "int", "float", "dict", "list", "set"])
    if k == "text":
        return rng.choice(TEXT)
    if k == "bool":
        return rng.random() < 0.5
    if k == "none":
        return None
    if k == "int":
        return rng.randint(-5, 50)
    if k == "float":
        return rng.choice([0.5, -1e30, float("inf"), 1.0])
    if k == "dict":
        return T.tree(rng)
    items = rng.sample(["x", "yy", "a b", "1"], rng.choice([0, 1, 1, 2, 3]))
    return items if k == "list" else set(items)


def attrs(rng):
    return {f"at_{i}": attr_value(rng) for i in range(rng.choice([0, 0, 1, 3]))}


def column(rng, kind, shape):
    hole = rng.choice([0, 0, 0.4])
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        v = {"text": lambda: rng.choice(TEXT[:12] if rng.random() < 0.9 else TEXT), "float": lambda: rng.choice([0.0, 1.5, float("inf"), -1e-300, rng.uniform(-9, 9)]), "int": lambda: rng.randint(-9, 9),
             "bool": lambda: rng.random() < 0.5, "time": lambda: pd.Timestamp("2005-01-01") + pd.Timedelta(minutes=rng.randint(0, 10 ** 6))}[kind]()
        out[ix] = v
    if kind == "float":
        out = out.astype(float)
        out[np.vectorize(lambda _: rng.random() < hole, otypes=[bool])(out)] = np.nan
    elif kind == "int":
        out = out.astype(int)
    elif kind == "bool":
        out = out.astype(bool)
    elif kind == "time":
        out = out.astype("datetime64[ns]")
        out[np.vectorize(lambda _: rng.random() < hole, otypes=[bool])(out)] = np.datetime64("NaT")
    elif rng.random() < 0.3:
        out = out.astype(str)
    else:
        for ix in np.ndindex(*shape):
            if rng.random() < hole:
                out[ix] = rng.choice([np.nan, None])
        if shape and all(x is None or x != x for x in out.ravel()):
            out[(0,) * len(shape)] = "x"
        elif not shape and (out[()] is None or out[()] != out[()]):
            out[()] = "x"
    return out


def dataset(rng):
    coords = {"nodes": ["n1", "n2", "north"][:rng.randint(1, 3)], "techs": ["wind", "Sun"][:rng.randint(1, 2)], "timesteps": pd.date_range("2005-01-01", periods=rng.randint(1, 3), freq=rng.choice(["h", "D", "15min"])),
              "years": [2020, 2030], "level": [0.5, 1.5]}
    coords = {k: v for k, v in coords.items() if rng.random() < 0.8}
    ds = xr.Dataset(coords=coords)
    for c in ds.coords:
        if rng.random() < 0.4:
            ds[c].attrs.update(attrs(rng))
    for i in range(rng.randint(0, 5)):
        dims = rng.sample(list(coords), rng.randint(0, min(3, len(coords))))
        kind = rng.choice(["text", "text", "float", "int", "bool", "time"])
        ds[f"v{i}_{kind}"] = (dims, column(rng, kind, [len(coords[d]) for d in dims]), attrs(rng))
    ds.attrs.update(attrs(rng))
    return ds


def null(v):
    return v is None or v is pd.NaT or (isinstance(v, float) and v != v) or (isinstance(v, np.datetime64) and np.isnat(v))


def same_value(a, b):
    if null(a) or null(b):
        return null(a) and null(b)
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    return a == b and isinstance(a, str) == isinstance(b, str)


def same_attr(a, b):
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    return T.same(T.plain(a), T.plain(b)) if not isinstance(a, set) else isinstance(b, set) and a == b


def compare(b, a, c, detail, what):
    """Dataset c (loaded) against a (saved)."""
    b.check(f"{what}: the same arrays and dimensions", set(map(str, a.variables)) == set(map(str, c.variables)) and dict(a.sizes) == dict(c.sizes), {**detail, "only one": str(set(a.variables) ^ set(c.variables))})
    for v in a.variables:
        if v not in c.variables:
            continue
        x, y = a[v], c[v]
        b.check(f"{what}: dimensions of arrays", x.dims == y.dims, {**detail, "array": v, "dims": (x.dims, y.dims)})
        if x.dims != y.dims or x.shape != y.shape:
            continue
        bad = [(i, x.values[i], y.values[i]) for i in np.ndindex(*x.shape) if not same_value(x.values[i], y.values[i])]
        b.check(f"{what}: values", not bad, {**detail, "array": v, "(at, saved, loaded)": str(bad[:4]), "dtypes": f"{x.dtype} {y.dtype}"})
        b.check(f"{what}: kind of data", x.dtype.kind == y.dtype.kind or {x.dtype.kind, y.dtype.kind} <= {"U", "O"}, {**detail, "array": v, "dtypes": f"{x.dtype} {y.dtype}"})
        b.check(f"{what}: attributes of arrays", set(x.attrs) == set(y.attrs) and all(same_attr(x.attrs[k], y.attrs[k]) for k in x.attrs), {**detail, "array": v, "saved": str(x.attrs)[:600], "loaded": str(y.attrs)[:600]})
    b.check(f"{what}: attributes of the dataset", set(a.attrs) == set(c.attrs) and all(same_attr(a.attrs[k], c.attrs[k]) for k in a.attrs), {**detail, "saved": str(a.attrs)[:600], "loaded": str(c.attrs)[:600]})


def snapshot(ds):
    return ds.copy(deep=True), copy.deepcopy(ds.attrs), {v: copy.deepcopy(ds[v].attrs) for v in ds.variables}


def untouched(ds, snap):
    s, at, vat = snap
    return set(ds.variables) == set(s.variables) and all(ds[v].equals(s[v]) and ds[v].dtype == s[v].dtype for v in s.variables) and T.same(T.plain({k: x for k, x in ds.attrs.items() if not isinstance(x, set)}), T.plain({k: x for k, x in at.items() if not isinstance(x, set)})) \
        and {k for k in ds.attrs} == set(at) and all(ds.attrs[k] == x for k, x in at.items() if isinstance(x, set)) and all(set(ds[v].attrs) == set(x) and all(same_attr(x[k], ds[v].attrs[k]) for k in x) for v, x in vat.items())


@bounded("C14", targets=NC, trials=150, shards=4, budget_s=120)
def random_datasets(b):
    """Random datasets (text, numbers, Booleans, dates, gaps, attributes of every kind) through saving and loading; what is in memory stays as it is, also when saving fails."""
    from calliope import io

    rng = b.rng
    groups = {g: dataset(rng) for g in rng.sample(["inputs", "results", "attrs"], rng.randint(1, 3))}
    path = b.scratch / f"f{rng.randint(0, 10 ** 9)}.nc"
    detail = {"data": {g: str({v: (list(x.dims), str(x.dtype)) for v, x in d.variables.items()})[:300] for g, d in groups.items()}}
    b.case(str(detail) + str([d.attrs for d in groups.values()]))
    mode = "w"
    for g, d in groups.items():
        snap = snapshot(d)
        extra = {"given": attr_value(rng)} if rng.random() < 0.2 else {}
        if rng.random() < 0.15:
            x = d.copy()
            x.attrs = dict(d.attrs)
            if rng.random() < 0.5:
                x.attrs["bad"] = [1, 2]
            else:
                x.attrs["bad"] = object()
            sn = snapshot(x.drop_attrs() if hasattr(x, "drop_attrs") else x)
            keep = {v: copy.deepcopy(x[v].attrs) for v in x.variables}
            at = dict(x.attrs)
            try:
                io.save_netcdf(x, g, "w", b.scratch / "bad.nc")
                b.check("attributes that cannot be stored are refused", False, detail)
            except Exception:
                pass
            b.check("a save that fails leaves the data in memory as it was", set(x.attrs) == set(at) and all(x.attrs[k] is at[k] or same_attr(at[k], x.attrs[k]) for k in at) and all(set(x[v].attrs) == set(k) and all(same_attr(k[i], x[v].attrs[i]) for i in k) for v, k in keep.items()),
                    {**detail, "before": str(at)[:400], "after": str(x.attrs)[:400]})
        io.save_netcdf(d, g, mode, path, **extra)
        mode = "a"
        b.check("saving does not change the data in memory", untouched(d, snap), detail)
        if extra:
            groups[g] = d.assign_attrs(extra)
    got = io.read_netcdf(path)
    for g in ["inputs", "results", "attrs"]:
        if g in groups:
            compare(b, groups[g], got[g], {**detail, "group": g}, "a dataset")
        else:
            b.check("groups that were not saved load as empty", not got[g].variables and not got[g].attrs, detail)
    again = b.scratch / "again.nc"
    for i, g in enumerate(groups):
        io.save_netcdf(got[g], g, "a" if i else "w", again)
    for g, d in io.read_netcdf(again).items():
        if g in groups:
            compare(b, groups[g], d, {**detail, "group": g}, "a dataset saved twice")


@bounded("C14", targets=NC + ["model.read_netcdf", "model.Model.to_netcdf", "model.Model.all_attrs", "model.Model.dump_all_attrs", "model.Model.__init__"], trials=12, shards=4, budget_s=200)
def random_models(b):
    """Random models saved before or after solving: inputs, results, configuration, definition, math and status read back, and the loaded model solves to the same result."""
    import calliope

    rng = b.rng
    over = mini.vary(rng)
    over = mini.merge(over, {"data_definitions": {"my_flag": {"data": True, "index": ["pv", "gas"][:rng.randint(1, 2)], "dims": "techs"}, "my_text": {"data": rng.choice(["x", "1", "no"]), "index": "chp", "dims": "techs"}},
                             "config": {"build": {"ensure_feasibility": True}, "solve": {"zero_threshold": rng.choice([1e-10, 0]), "shadow_prices": rng.sample(["system_balance", "balance_demand"], rng.randint(0, 2)) }}})
    math_ = {"lookups": {"my_flag": {"dtype": "bool"}, "my_text": {"dtype": "string"}}, "parameters": {"my_none": {"default": float("nan")}}}
    m = mini.model(over, nt=rng.choice([3, 4]), math=math_)
    solved = rng.random() < 0.7
    if solved:
        m.build()
        m.solve()
        if m.runtime.termination_condition != "optimal":
            return
    snap, rs = snapshot(m.inputs), snapshot(m.results)
    before = copy.deepcopy(m.dump_all_attrs())
    path = b.scratch / "m.nc"
    m.to_netcdf(path)
    b.check("saving does not change the model", untouched(m.inputs, snap) and untouched(m.results, rs) and T.same(T.plain(before), T.plain(m.dump_all_attrs())) and m.is_built == solved and m.is_solved == solved, None)
    n = calliope.read_netcdf(path)
    detail = {"changes": str(over)[:1500], "solved": solved}
    b.case(str(over))
    compare(b, m.inputs, n.inputs, detail, "inputs")
    if solved:
        compare(b, m.results, n.results, detail, "results")
    b.check("the status of the loaded model", n.is_solved == solved and not n.is_built and bool(n.results.data_vars) == solved, {**detail, "is_solved": n.is_solved})
    old, new = T.plain(before), T.plain(n.dump_all_attrs())
    for part in old:
        x, y = (old[part], new.get(part))
        if part == "runtime":
            x, y = ({k: v for k, v in z.items() if k != "timings"} for z in (x, y))
        b.check(f"the {part} of the loaded model", plain_same(x, y), {**detail, "first difference": str(difference(x, y))[:600]})
    n.build()
    n.solve(force=True)
    if not solved:
        m.build()
        m.solve()
    if m.runtime.termination_condition == "optimal":
        b.check("the loaded model solves to the same objective", n.runtime.termination_condition == "optimal" and math.isclose(float(objective(m)), float(objective(n)), rel_tol=1e-6, abs_tol=1e-6), {**detail, "objectives": f"{objective(m)} {objective(n)}"})
        b.check("the loaded model has the same results", set(m.results.data_vars) == set(n.results.data_vars), detail)
        b.check("the loaded problem is the same", problem(m) == problem(n), detail)


def problem(m):
    m.backend.verbose_strings()
    return sorted((k, n, str(a.size), int(a.notnull().sum())) for k in ("constraints", "variables", "global_expressions") for n, a in getattr(m.backend, k).items())


def objective(m):
    import pyomo.environ as pe

    return next(pe.value(o) for o in m.backend._instance.component_data_objects(pe.Objective, active=True))


def plain_same(a, b):
    return difference(a, b) is None


def difference(a, b, at=()):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in {**a, **b}:
            if k not in a or k not in b:
                return (*at, k), a.get(k, "missing"), b.get(k, "missing")
            d = difference(a[k], b[k], (*at, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return at, a, b
        return next((d for d in (difference(x, y, (*at, i)) for i, (x, y) in enumerate(zip(a, b))) if d), None)
    if isinstance(a, (set, frozenset)) or isinstance(b, (set, frozenset)):
        return None if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and a == b else (at, a, b)
    same = type(a) is type(b) and (a == b or a != a and b != b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        same = a == b or a != a and b != b
    return None if same else (at, a, b)


# --- YAML ---------------------------------------------------------------------------------------------------------------
def yaml_leaf(rng, numpy=True):
    k = rng.choice(["text", "text", "plain", "numpy", "date", "list"])
    if k == "text":
        v = rng.choice(TEXT)
        return v, v
    if k == "plain":
        v = T.leaf(rng)
        return v, v
    if k == "numpy":
        v = rng.choice([np.float64(1.5), np.int64(3), np.float32(0.5), np.int32(-4), np.bool_(True), np.bool_(False), pathlib.Path("some/file.csv")])
        return v, str(v) if isinstance(v, pathlib.Path) else v.item()
    if k == "date":
        v = rng.choice([datetime.date(2005, 1, 2), datetime.datetime(2005, 1, 2, 3, 4, 5), datetime.datetime(2005, 1, 2, 3, 4, 5, 678000)])
        return v, v
    v = [rng.choice(TEXT) for _ in range(rng.randint(0, 3))]
    return v, list(v)


def yaml_tree(rng, depth=3):
    given, read = {}, {}
    for k in rng.sample(["a", "b", "c_d", "1", "true", "null", "with space", "e-f", "x:y"], rng.randint(0 if depth < 3 else 1, 3)):
        if depth > 1 and rng.random() < 0.5:
            given[k], read[k] = yaml_tree(rng, depth - 1)
        else:
            given[k], read[k] = yaml_leaf(rng)
    return given, read


@bounded("C14", targets=YAML[:3], trials=300, shards=2, budget_s=60)
def random_yaml(b):
    """Random nested definitions written as YAML and read back, from text and from file."""
    from calliope import io
    from calliope.attrdict import AttrDict

    rng = b.rng
    given, want = yaml_tree(rng)
    data = AttrDict(copy.deepcopy(given)) if rng.random() < 0.6 else copy.deepcopy(given)
    held = copy.deepcopy(data)
    path = b.scratch / "y.yaml" if rng.random() < 0.5 else None
    b.case(repr(given))
    text = io.to_yaml(data, path=path)
    b.check("writing YAML does not change the definition", T.same(T.plain(held), T.plain(data)), {"definition": repr(given)[:800]})
    got = io.read_rich_yaml(path if path and rng.random() < 0.5 else str(path) if path else text)
    b.check("YAML written from a definition reads back as an equal definition", plain_same(T.plain(got), want) and isinstance(got, AttrDict), {"definition": repr(given)[:800], "text": text[:600], "difference": str(difference(T.plain(got), want))[:300]})


def expect_files(files, name, allow):
    own = copy.deepcopy(files[name][0])
    for i in files[name][1]:
        sub = expect_files(files, i, allow)
        if sub is KeyError:
            return KeyError
        own = T.merged(sub, own, allow)
        if own is KeyError:
            return KeyError
    return own


@bounded("C14", targets=YAML[1:], trials=150, shards=2, budget_s=60)
def random_imports(b):
    """Random trees of files importing each other from several folders, with and without overriding allowed."""
    import ruamel.yaml

    from calliope import io

    rng = b.rng
    names = ["model.yaml", "sub/one.yaml", "two.yaml", "sub/deep/three.yaml"][:rng.randint(1, 4)]
    root = b.scratch / f"r{rng.randint(0, 10 ** 9)}"
    files = {}
    sparse = [rng.choice(["a", "b", "c", "dd", "e_f"]) for _ in names]
    for i, n in enumerate(names):
        later = names[i + 1:]
        imps = rng.sample(later, rng.randint(1 if i == 0 and later else 0, len(later)))
        keys = T.KEYS if rng.random() < 0.5 else [f"{k}{i}" for k in T.KEYS]
        files[n] = (T.tree(rng, keys=keys, empty=0), imps)
    yaml = ruamel.yaml.YAML(typ="safe")
    for n, (t, imps) in files.items():
        p = root / n
        p.parent.mkdir(parents=True, exist_ok=True)
        up = "../" * n.count("/")
        d = {**copy.deepcopy(t)}
        if imps:
            d["import"] = [up + i if rng.random() < 0.8 else str(root / i) for i in imps]
        with open(p, "w") as f:
            yaml.dump(d, f)
    allow = rng.random() < 0.5
    want = expect_files(files, names[0], allow)
    detail = {"files": {n: (T.show(t), i) for n, (t, i) in files.items()}, "allow_override": allow}
    b.case(str(files))
    try:
        got = T.plain(io.read_rich_yaml(root / names[0], allow_override=allow))
    except KeyError as e:
        b.check("files that do not conflict are merged", want is KeyError, {**detail, "error": str(e)})
        return
    b.check("imported files never override the importing file, and conflicts are refused unless allowed", want is not KeyError and T.same(got, want), {**detail, "got": T.show(got), "expected": T.show(want) if want is not KeyError else "refused"})


@bounded("C14", targets=YAML[1:3], trials=1, shards=1, budget_s=10)
def refused_yaml(b):
    """Text that is not a mapping, and imports without a file, are refused."""
    from calliope import io

    for text in ["just text", "- a\n- b", "3", "a: [", "import: [x.yaml]\na: 1", "import: x.yaml"]:
        try:
            io.read_rich_yaml(text)
            b.check("text that cannot be read is refused", False, {"text": text})
        except Exception as e:
            b.check("text that cannot be read is refused", not isinstance(e, (AttributeError, TypeError)), {"text": text, "error": repr(e)[:200]})
