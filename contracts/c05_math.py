"""C05: layering of math definitions."""
import copy
import warnings

from dv.registry import bounded

from . import mini
from . import trees as T

D = "preprocess.model_math."
GROUPS = ["dimensions", "parameters", "lookups", "variables", "global_expressions", "constraints", "piecewise_constraints", "objectives", "postprocessed", "checks"]
_files = {}


def files():
    """The shipped math files, read without calliope."""
    if not _files:
        import pathlib

        import calliope
        from ruamel.yaml import YAML

        for f in sorted((pathlib.Path(calliope.__file__).parent / "math").iterdir()):
            if f.suffix == ".yaml":
                _files[f.stem] = nest(YAML(typ="safe").load(f.read_text()))
    return copy.deepcopy(_files)


def nest(t):
    """Dotted keys as nested mappings."""
    if isinstance(t, list):
        return [nest(x) for x in t]
    if not isinstance(t, dict):
        return t
    out = {}
    for k, v in t.items():
        ks = str(k).split(".")
        v = nest(v)
        for x in reversed(ks[1:]):
            v = {x: v}
        out = T.merged(out, {ks[0]: v}, True)
    return out


def component(rng, group):
    e = lambda: rng.choice(["flow_cap + 1", "sum(flow_out, over=timesteps)", "2 * flow_cap", "flow_cap * $x"])
    eqs = lambda op="": [{"expression": e() + op, **({"where": rng.choice(["flow_cap_max", "True"])} if rng.random() < 0.5 else {})} for _ in range(rng.randint(1, 2))]
    c = {"description": rng.choice(["d1", "d2"])}
    if group == "parameters":
        c.update(default=rng.choice([0, 1, float("inf")]), unit=rng.choice(["u", ""]), resample_method=rng.choice(["mean", "sum"]))
    elif group == "lookups":
        c.update(dtype=rng.choice(["bool", "string"]))
    elif group == "dimensions":
        c.update(dtype=rng.choice(["string", "integer"]), iterator=rng.choice(["i", "j"]))
    elif group == "variables":
        c.update(foreach=rng.sample(["nodes", "techs"], rng.randint(0, 2)), bounds={"min": rng.choice([0, "flow_cap_min"]), "max": rng.choice([5, "flow_cap_max"])},
                 default=0, domain=rng.choice(["real", "integer"]))
    elif group in ("global_expressions", "postprocessed"):
        c.update(foreach=["nodes", "techs"], where=rng.choice(["flow_cap_max", "True"]), equations=eqs(), order=rng.randint(-2, 2), default=0)
    elif group == "constraints":
        c.update(foreach=["nodes", "techs"], equations=eqs(" <= 3"), sub_expressions={"x": [{"expression": "2"}]})
    elif group == "objectives":
        c.update(equations=eqs(), sense=rng.choice(["minimise", "maximise"]))
    elif group == "checks":
        c = {"where": "flow_cap_max", "message": rng.choice(["m1", "m2"]), "errors": rng.choice(["warn", "raise"])}
    elif group == "piecewise_constraints":
        c.update(foreach=["nodes"], x_expression="flow_cap", y_expression="flow_cap", x_values="p", y_values="q")
    return c


def edit(rng, group, comp):
    """A partial definition of an existing component: some options only."""
    full = component(rng, group)
    keys = rng.sample(list(full), rng.randint(1, min(3, len(full))))
    out = {k: full[k] for k in keys}
    if group == "variables" and "bounds" in out:
        out["bounds"] = {rng.choice(["min", "max"]): rng.choice([0, 1, 7])}
    if group == "constraints" and "sub_expressions" in out:
        out["sub_expressions"] = {rng.choice(["x", "y"]): [{"expression": "9"}]}
    if group != "checks" and rng.random() < 0.4:
        out["active"] = rng.random() < 0.5
    return out


def layer(rng, known, fresh=0.5):
    out = {}
    for _ in range(rng.randint(1, 5)):
        g = rng.choice(GROUPS)
        if known.get(g) and rng.random() > fresh:
            n = rng.choice(sorted(known[g]))
            new = edit(rng, g, n)
        else:
            other = [n for gg in GROUPS if gg != g for n in known.get(gg, ())]
            n = rng.choice(other) if other and rng.random() < 0.15 else rng.choice([f"c_{i}" for i in range(12)] if rng.random() < 0.15 else [f"{g[:3]}_{i}" for i in range(6)])
            new = component(rng, g)
            if rng.random() < 0.15 and g != "checks":
                new["active"] = False
        out.setdefault(g, {})[n] = new
        known.setdefault(g, set()).add(n)
    return out


def clash(m):
    """Names of active components of two kinds."""
    seen, dup = {}, set()
    for g in GROUPS:
        for n, c in (m.get(g) or {}).items():
            if c.get("active", True):
                if n in seen:
                    dup.add(n)
                seen[n] = g
    return dup


def overlay(layers):
    out = {}
    for x in layers:
        out = T.merged(out, x, True)
        if out is KeyError:
            return None
    return out


@bounded("C05", targets=[D + "build_math", "schemas.math_schema.CalliopeBuildMath.unique_component_names"], trials=600, shards=4, budget_s=120)
def random_layers(b):
    """Random layers over a sample of the shipped math: the built math equals the option-by-option overlay."""
    from pydantic import ValidationError

    from calliope import exceptions
    from calliope.preprocess.model_math import build_math
    from calliope.schemas.math_schema import CalliopeBuildMath

    rng = b.rng
    F = files()
    known, data = {}, {}
    base = {}
    for g in GROUPS:
        names = list(F["base"].get(g, {}))
        for n in rng.sample(names, min(4, len(names))):
            base.setdefault(g, {})[n] = F["base"][g][n]
            known.setdefault(g, set()).add(n)
    data["base"] = base
    for n in ("operate", "spores", "milp", "storage_inter_cluster"):
        if rng.random() < 0.3:
            data[n] = F[n]
    for n in ("m1", "m2", "m3", "m4"):
        data[n] = layer(rng, known, 0.3)
    order = rng.sample(list(data), rng.randint(1, len(data)))
    if rng.random() < 0.8 and "base" in order:
        order.remove("base")
        order = ["base", *order]
    if rng.random() < 0.2:
        order.append(order[0])
    extra = layer(rng, known, 0.3) if rng.random() < 0.4 else None
    missing = rng.random() < 0.1
    if missing:
        order.insert(rng.randint(0, len(order)), "nowhere")
    b.case((order, T.show(extra), T.show({k: data[k] for k in ("m1", "m2", "m3", "m4")}, 2000)))
    detail = {"order": order, "layers": T.show({k: data.get(k) for k in ("m1", "m2", "m3", "m4")}, 3000), "overwrite": T.show(extra)}
    given, gextra = copy.deepcopy(data), copy.deepcopy(extra)
    if rng.random() < 0.5:
        from calliope.attrdict import AttrDict

        given = AttrDict(given)
    want = None if missing else overlay([data[n] for n in order] + ([extra] if extra else []))
    if not missing and want is None:
        return
    err = None
    if missing:
        err = exceptions.ModelError
    else:
        dup = clash(want)
        try:
            wm = CalliopeBuildMath(**copy.deepcopy(want)).model_dump()
            b.check("two active components of different kinds never share a name", not dup, {**detail, "shared": sorted(dup)})
        except ValidationError:
            err = ValidationError
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = build_math(list(order), given, gextra, validate=False)
    except exceptions.ModelError:
        b.check("a model error only for an unknown math name", err is exceptions.ModelError, detail)
    except ValidationError as e:
        b.check("rejected only if the overlay is not valid math", err is ValidationError, lambda: {**detail, "error": str(e)[:800]})
    else:
        b.check("unknown names and invalid overlays are rejected", err is None, detail)
        if err is None:
            g = got.model_dump()
            if not T.same(g, wm):
                gl, wl = T.leaves(g), T.leaves(wm)
                diff = {".".join(p): (repr(gl.get(p, "-"))[:200], repr(wl.get(p, "-"))[:200]) for p in {*gl, *wl} if not T.same([gl.get(p, "-")], [wl.get(p, "-")])}
                b.check("later layers win option by option", False, {**detail, "(got, expected)": dict(sorted(diff.items())[:20])})
            else:
                b.check("later layers win option by option", True)
    b.check("the stored source math is not modified", T.same(T.plain(given), data) and (extra is None or T.same(T.plain(gextra), extra)), detail)


def _dump(m):
    return m.math.build.model_dump()


@bounded("C05", targets=[D + "initialise_math", D + "get_math_priority", D + "build_math", "model.Model.__init__", "preprocess.model_definition.prepare_model_definition"],
         trials=10, shards=4, budget_s=120)
def random_models(b):
    """Models with random modes and extra math (files and dictionaries), and their re-initialisation with another mode."""
    import calliope
    from calliope import exceptions
    from calliope.schemas.math_schema import CalliopeBuildMath
    from ruamel.yaml import YAML

    rng = b.rng
    F = files()

    def plain_layer(tag):
        out = {"parameters": {f"par_{tag}": {"default": rng.choice([1, 2])}},
               "constraints": {f"con_{tag}": {"foreach": ["techs"], "where": "flow_cap_max", "equations": [{"expression": "sum(flow_cap, over=[nodes, carriers]) <= 1e6"}]}}}
        if rng.random() < 0.7:
            out["variables"] = {"flow_cap": {"bounds": {"max": rng.choice([1e5, 1e6])}, "description": tag}}
        if rng.random() < 0.5:
            out["constraints"]["flow_out_max"] = {"description": tag, "active": rng.random() < 0.5}
        if rng.random() < 0.5:
            out.setdefault("constraints", {})["con_shared"] = {"foreach": [], "equations": [{"expression": "sum(flow_cap, over=[nodes, carriers, techs]) <= " + rng.choice(["1e7", "1e8"])}],
                                                               "description": tag}
        if rng.random() < 0.3:
            out["global_expressions"] = {"cost": {"title": tag}}
        return out

    L = {"f1": plain_layer("f1"), "f2": plain_layer("f2"), "d1": plain_layer("d1"), "milp": plain_layer("milp")}
    paths = {}
    for n in ("f1", "f2") + (("milp",) if rng.random() < 0.3 else ()):
        p = b.scratch / f"{n}.yaml"
        with open(p, "w") as f:
            YAML(typ="safe").dump(L[n], f)
        paths[n] = str(p)
    src = {**F, **{n: L[n] for n in paths}}
    mdict = {"d1": L["d1"]}
    if rng.random() < 0.3:
        mdict["f1"] = {"parameters": {"par_f1": {"default": 9}}}
    for n, x in mdict.items():
        src[n] = T.merged(src.get(n, {}), x, True)
    pool = [n for n in ("f1", "f2", "d1", "milp", "storage_inter_cluster") if n in src]
    extra = rng.sample([n for n in pool if n != "storage_inter_cluster"], rng.randint(0, 3))
    modes = rng.sample(["base", "operate", "spores"], 2)
    bad = rng.random() < 0.15
    b.case((modes, extra, T.show(L, 3000)))
    detail = {"modes": modes, "extra_math": extra, "files": T.show({n: L[n] for n in paths}, 1500), "math_dict": T.show(mdict)}

    def order(mode):
        return ["base", *([] if mode == "base" else [mode]), *extra]

    def expected(mode):
        return CalliopeBuildMath(**overlay([src[n] for n in order(mode)])).model_dump()

    kw = {"config": {"init": {"name": "x", "broadcast_input_data": True, "mode": modes[0], "extra_math": extra + (["nowhere"] if bad else []), "math_paths": paths}}}
    if not bad and rng.random() < 0.3:
        kw["config"]["init"]["extra_math"], call = [], {"extra_math": extra}
    else:
        call = {}
    try:
        m = mini.model(kw, nt=3, math_dict=copy.deepcopy(mdict), **call)
    except exceptions.ModelError:
        b.check("a model error only for an unknown math name", bad, detail)
        return
    b.check("an unknown math name raises a model error", not bad, detail)
    if bad:
        return

    def cmp(label, got, want):
        if T.same(got, want):
            b.check(label, True)
            return
        gl, wl = T.leaves(got), T.leaves(want)
        diff = {".".join(p): (repr(gl.get(p, "-"))[:200], repr(wl.get(p, "-"))[:200]) for p in {*gl, *wl} if not T.same([gl.get(p, "-")], [wl.get(p, "-")])}
        b.check(label, False, {**detail, "(got, expected)": dict(sorted(diff.items())[:20])})

    cmp("base, then the mode's, then the extra math in order", _dump(m), expected(modes[0]))
    b.check("the order is recorded", m.runtime.math_priority == order(modes[0]), detail)
    source = m.math.init.model_dump()
    for n in src:
        b.check("each source math is stored as defined", T.same(T.plain(source[n]), src[n]), {**detail, "name": n})
    n = calliope.Model(m.inputs.copy(deep=True), m.all_attrs, mode=modes[1])
    cmp("re-initialising with another mode gives that mode's math", _dump(n), expected(modes[1]))
    b.check("re-initialising records the new order", n.runtime.math_priority == order(modes[1]), detail)
    cmp("the first model's math is unaffected", _dump(m), expected(modes[0]))
    b.check("the stored source math is not modified", T.same(m.math.init.model_dump(), source) and T.same(n.math.init.model_dump(), source), detail)
    if modes[0] != "operate":
        m.build()
        m.backend.add_parameter("late", __import__("xarray").DataArray(1.0), {"default": 2})
        cmp("building and changing the built problem leaves the stored math alone", _dump(m), expected(modes[0]))
        b.check("the stored source math is not modified by building", T.same(m.math.init.model_dump(), source), detail)
        name = rng.choice(["flow_cap", "flow_out", "cost"])
        try:
            m.backend.add_constraint(name, {"foreach": [], "equations": [{"expression": "sum(flow_cap, over=[nodes, techs, carriers]) <= 1e9"}]})
            b.check("a component of another kind cannot take an active component's name", False, {**detail, "name": name})
        except Exception:
            b.check("a component of another kind cannot take an active component's name", True)
