"""Random math components over the mini model: conditions, equations, sub-expressions, slices."""
from . import mini

LABELS = {"nodes": ["a", "b"], "techs": ["demand", "heat_demand", "gas", "pv", "battery", "boiler", "chp", "line"],
          "carriers": ["gas", "electricity", "heat"], "costs": ["monetary"], "groups": ["g1", "g2"]}

# custom inputs: name -> dims
PARAMS = {"r_t": ("techs",), "r_nt": ("nodes", "techs"), "r_c": ("carriers",), "r_g": ("groups",), "r_gt": ("groups", "techs"),
          "r_0": (), "r_n": ("nodes",)}
LOOKUPS = {"l_t": ("techs",), "lb_nt": ("nodes", "techs"), "l_n": ("nodes",)}


def definitions(rng):
    """Sparse random values of the custom inputs, and their math definitions."""
    data, math = {}, {"dimensions": {"groups": {"dtype": "string", "iterator": "group"}}, "parameters": {}, "lookups": {}}
    import itertools

    def entry(dims, value):
        idx = [k for k in itertools.product(*[LABELS[d] for d in dims]) if rng.random() < 0.6]
        if not idx:
            idx = [tuple(LABELS[d][0] for d in dims)]
        if not dims:
            return value()
        if len(dims) == 1:
            return {"data": [value() for _ in idx], "index": [k[0] for k in idx], "dims": dims[0]}
        return {"data": [value() for _ in idx], "index": [list(k) for k in idx], "dims": list(dims)}

    for n, dims in PARAMS.items():
        vals = [0, 1, 2, 3, -1.5, float("inf")] if n != "r_0" else [0, 1, 2]
        if dims and rng.random() < 0.1:
            continue
        data[n] = entry(dims, lambda: rng.choice(vals[:-1] if rng.random() < 0.85 else vals))
        math["parameters"][n] = {"default": rng.choice([0, 1, 2, 5])}
        if rng.random() < 0.25:
            math["parameters"][n] = {}
    for n in PARAMS:
        math["parameters"].setdefault(n, {"default": 1})
    for n, dims in LOOKUPS.items():
        if n == "lb_nt":
            data[n] = entry(dims, lambda: rng.random() < 0.6)
            math["lookups"][n] = {"dtype": "bool", "default": False}
        else:
            data[n] = entry(dims, lambda: rng.choice(["x", "y"]))
            math["lookups"][n] = {"dtype": "string"}
    math["parameters"]["r_undef"] = {"default": 4}
    # groups must have labels even if nothing above used them
    data["r_all_g"] = {"data": [1, 2], "index": ["g1", "g2"], "dims": "groups"}
    math["parameters"]["r_all_g"] = {"default": 1}
    return data, math


ATOMS = ["r_t", "r_nt", "r_c", "r_n", "r_g", "r_gt", "lb_nt", "l_t", "carrier_in", "carrier_out", "flow_cap_max", "storage_cap_max",
         "base_tech==storage", "base_tech==supply", "base_tech==demand", "include_storage==True", "l_t==x", "l_n==y", "r_t>1", "r_nt<=2", "r_nt>=1", "r_c<2",
         "r_t==2", "r_0>0", "r_gt>0", "[a] in nodes", "[b, a] in nodes", "[battery, chp, line] in techs", "[gas, heat] in carriers", "[g2] in groups",
         "any(r_nt, over=techs)", "any(r_nt, over=nodes)", "any(carrier_in, over=carriers)", "any(carrier_out, over=[carriers, techs])",
         "any(r_gt, over=groups)", "True", "r_undef", "r_undef>2", "r_undef==4", "config.ensure_feasibility==True", "source_use_max", "sink_use_equals", "one_way", "r_t==1", "lb_nt==True"]


def dims_of_atom(a):
    return None


def condition(rng, depth=2, refs=()):
    atoms = ATOMS + list(refs) * 3
    if depth == 0 or rng.random() < 0.3:
        a = rng.choice(atoms)
        return f"NOT {a}" if rng.random() < 0.25 else a
    a, b = condition(rng, depth - 1, refs), condition(rng, depth - 1, refs)
    s = f"{a} {rng.choice(['AND', 'OR', 'and', 'or', 'AND', 'OR'])} {b}"
    x = rng.random()
    if x < 0.35:
        return f"({s})"
    if x < 0.5:
        return f"NOT ({s})"
    return s


def foreach(rng):
    x = rng.random()
    pool = ["nodes", "techs", "carriers"]
    if x < 0.1:
        return []
    k = rng.choice([1, 1, 2, 2, 2, 3])
    f = rng.sample(pool, k)
    if rng.random() < 0.35:
        f.append("timesteps")
    if rng.random() < 0.2:
        f.insert(rng.randrange(len(f) + 1), "groups")
    if rng.random() < 0.1:
        f.append("costs")
    return f


DIMS = {**PARAMS, "flow_cap_max": ("nodes", "techs", "carriers"), "flow_out_eff": ("nodes", "techs", "carriers"), "timestep_resolution": ("timesteps",)}


def fit(term, dims, fe):
    """Sum over the dims not in foreach."""
    over = [d for d in dims if d not in fe]
    if not over:
        return term
    return f"sum({term}, over={over[0]})" if len(over) == 1 else f"sum({term}, over=[{', '.join(over)}])"


def arithmetic(rng, fe, results, depth=2, names=()):
    """A linear expression over the results, with parameters as coefficients."""
    def coef():
        x = rng.random()
        n = rng.choice(["r_t", "r_nt", "r_c", "r_0", "r_n", "r_g", "r_all_g"])
        ok = set(PARAMS.get(n, ("groups",))) <= set(fe)
        if x < 0.5 and ok:
            return n
        if x < 0.65 and ok:
            return f"({n} + {rng.choice([1, 2])})"
        return str(rng.choice([1, 2, 0.5, 3]))

    def term():
        if names and rng.random() < 0.4:
            return "$" + rng.choice(list(names))
        if results and rng.random() < 0.8:
            n = rng.choice(sorted(results))
            dims = results[n]
            t = n
            x = rng.random()
            if x < 0.12 and "techs" in dims and "techs" not in fe:
                t = f"{n}[techs={rng.choice(LABELS['techs'])}]"
                dims = tuple(d for d in dims if d != "techs")
            elif x < 0.2 and "timesteps" in dims:
                t = f"roll({n}, timesteps={rng.choice([1, 2, -1])})"
            elif x < 0.3:
                t = f"where({n}, {rng.choice(['lb_nt', 'carrier_in'])})" if {"nodes", "techs", "carriers"} <= set(dims) else n
            return f"{rng.choice(['', '', '-'])}{fit(t, dims, fe)} * {coef()}" if rng.random() < 0.6 else fit(t, dims, fe)
        return coef()

    s = term()
    for _ in range(rng.randint(0, depth)):
        s += f" {rng.choice(['+', '-'])} {term()}"
    return s


def component(rng, kind, results, fe=None, overlap_ok=False):
    fe = foreach(rng) if fe is None else fe
    c = {"foreach": fe}
    if rng.random() < 0.8:
        c["where"] = condition(rng, 2, [r for r in results])
    if kind == "variables":
        lo, hi = rng.choice([(0, float("inf")), (float("-inf"), float("inf")), (-2, 9), (0, 5)])
        for s, v in (("min", lo), ("max", hi)):
            n = rng.choice(["r_t", "r_nt", "r_c", "r_0"])
            if rng.random() < 0.35 and set(PARAMS[n]) <= set(fe):
                v = n
            c.setdefault("bounds", {})[s] = v
        c["domain"] = rng.choice(["real", "real", "integer"])
        c["default"] = 0 if rng.random() < 0.8 else rng.choice([1, 2])
        if rng.random() < 0.08:
            c["active"] = False
        return c
    subs, sls = {}, {}
    if rng.random() < 0.5:
        for s in ("s1", "s2")[: rng.choice([1, 1, 2])]:
            if rng.random() < 0.5:
                subs[s] = [{"expression": arithmetic(rng, fe, results, 1)}]
            else:
                w = condition(rng, 0)
                subs[s] = [{"where": w, "expression": arithmetic(rng, fe, results, 1)}, {"where": f"NOT ({w})", "expression": str(rng.choice([0, 1, 4]))}]
    if subs:
        c["sub_expressions"] = subs

    def eq():
        a = arithmetic(rng, fe, results, 2, subs)
        if kind == "constraints":
            n = rng.choice(sorted(results))
            return f"{a} + {fit(n, results[n], fe)} {rng.choice(['<=', '>=', '=='])} {arithmetic(rng, fe, {}, 1)}"
        return a

    x = rng.random()
    if x < 0.4:
        c["equations"] = [{"expression": eq()}]
        if rng.random() < 0.5:
            c["equations"][0]["where"] = condition(rng, 1)
    elif x < 0.85:
        w = condition(rng, 1)
        w2 = f"NOT ({w})"
        if rng.random() < 0.4:
            w2 += f" AND {condition(rng, 0)}"
        c["equations"] = [{"where": w, "expression": eq()}, {"where": w2, "expression": eq()}]
    else:
        c["equations"] = [{"where": condition(rng, 1), "expression": eq()}, {"where": condition(rng, 1), "expression": eq()}]
    if rng.random() < 0.08:
        c["active"] = False
    return c


def random_math(rng, accept, nvar=3, nexp=2, ncon=3):
    """Variables, expressions, constraints over the custom inputs, each kept when `accept(math)` returns None.

    Returns (math, rejected) where rejected lists (group, name, component, reason)."""
    results = {}
    math = {"variables": {}, "global_expressions": {}, "constraints": {}, "objectives": {}}
    rejected = []
    plan = [("variables", f"v{i}") for i in range(nvar)] + [("global_expressions", f"e{i}") for i in range(nexp)] + [("constraints", f"c{i}") for i in range(ncon)]
    for grp, name in plan:
        for _ in range(12):
            c = component(rng, grp, results)
            if name == "v0":
                c.pop("active", None)
            if grp == "global_expressions":
                c["default"] = 0
            math[grp][name] = c
            why = accept(math) if c.get("active", True) else None
            if why is None:
                if c.get("active", True) and grp != "constraints":
                    results[name] = tuple(c["foreach"])
                break
            if isinstance(why, str):
                rejected.append((grp, name, c, why))
            del math[grp][name]
    vs = [n for n in results if n in math["variables"]]
    if vs:
        math["objectives"]["min_cost_optimisation"] = {"sense": "minimise", "equations": [{"expression": fit(vs[0], results[vs[0]], [])}]}
    return math, rejected


def model(rng, nt=3):
    data, math = definitions(rng)
    over = mini.vary(rng)
    over = mini.merge(over, {"data_definitions": data, "config": {"build": {"ensure_feasibility": True}}})
    return mini.model(over, nt=nt, math=math)


def set_math(m, comps, keep=("dimensions", "parameters", "lookups")):
    """Replace the optimisation components of the model's math by `comps` (fresh schema object)."""
    from calliope.schemas.math_schema import CalliopeBuildMath

    d = m.math.build.model_dump()
    d = {k: d[k] for k in keep}
    d.update(comps)
    m.math = type(m.math)(init=m.math.init, build=CalliopeBuildMath(**d))


def is_var(p, R):
    return isinstance(p, R.Poly) and any(k and abs(v) > 1e-12 for k, v in p.t.items())


def bad_coef(x, R):
    import math

    return any(not math.isfinite(v) for v in R.Poly.of(x).t.values())


def acceptor(m):
    """accept(math) for random_math: None when the reference can interpret it and something is built; "overlap"; or False."""
    from . import refmath as R

    d = m.math.build.model_dump()
    keep = {k: d[k] for k in ("dimensions", "parameters", "lookups")}

    def accept(math):
        try:
            r = R.Ref(m.inputs, {**keep, **{k: math.get(k, {}) for k in ("variables", "global_expressions", "constraints", "objectives")}}, m.config.build)
            r.build()
        except R.Overlap:
            return "overlap"
        except (R.Incomplete, R.Unsupported, SyntaxError, KeyError, ValueError, TypeError, ZeroDivisionError, OverflowError):
            return False
        if any(bad_coef(x, R) for n, a in r.results.items() if n not in r.bounds for x in a.data.values()) or any(
                bad_coef(x, R) or bad_coef(y, R) for c in r.constraints.values() for _, x, y in c.data.values()):
            return False
        if any(not (isinstance(x, R.Poly) and x.t or isinstance(y, R.Poly) and y.t) or not is_var(R.padd(x, y, -1.0), R)
               for c in r.constraints.values() for _, x, y in c.data.values()):
            return False
        last = list({**r.results, **r.constraints}.items())
        return None if not last or last[-1][1].data or math.get("_allow_empty") else False

    return accept
