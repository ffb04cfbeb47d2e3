"""C08: components exist exactly where their foreach, condition and equation conditions say."""
import random
import types

from dv import arr
from dv.core import And, Iff, Implies, Not, Or
from dv.harness import Raised, same
from dv.registry import bounded, contract

from . import wast
from .common import World, at, build_config, mkmath, mods, names


def _mods():
    from calliope.backend import backend_model, pyomo_backend_model

    return [*mods(), backend_model, pyomo_backend_model]


def _component(group, spec):
    from calliope.backend import parsing
    from calliope.schemas import math_schema

    cls = {"variables": math_schema.Variable, "global_expressions": math_schema.GlobalExpression, "constraints": math_schema.Constraint}[group]
    data = cls.model_validate(spec)
    return data, parsing.ParsedBackendComponent(group, "foo", data, {"where": names(), "expression": names()})


def _exists(W, dims, f, env):
    """Exists over the named dims of W."""
    def rec(todo, e):
        if not todo:
            return f(e)
        D = W.d[todo[0]]
        return D.exists(lambda i: rec(todo[1:], {**e, D.name: i}))

    return rec([d for d in dims], dict(env))


DM = ("nodes", "techs", "carriers")
FOREACH = [[], ["techs"], ["nodes", "techs"], ["techs", "nodes"], ["nodes", "techs", "carriers"], ["techs", "timesteps"],
           ["timesteps", "carriers", "nodes"], ["timesteps"], ["nodes", "techs", "carriers", "timesteps"], ["nodes", "unknown_dim"]]


def _sub(fe, env):
    return {k: env[k] for k in fe}


@contract("C08", targets=["parsing.ParsedBackendComponent.combine_definition_matrix_and_foreach"], trials=40)
def definition_and_foreach(h):
    """The starting set is the definition matrix, over the declared extra dimensions; unknown dimensions give nothing."""
    fe = h.choose("foreach", FOREACH)
    W = World(h, which=["definition_matrix", "p_nt"])
    data, pc = _component("variables", {"foreach": fe, "bounds": {"min": 0, "max": 1}})
    with h.patch(*_mods()):
        got = h.call(pc.combine_definition_matrix_and_foreach, W.input_ds)
    if isinstance(got, Raised):
        h.prove(f"does not raise ({got})", False)
        return
    g = h.spec(got)
    dm = W.inputs["definition_matrix"]
    if "unknown_dim" in fe:
        h.prove("unknown dimension: nowhere", And(len(g.dims) == 0, Not(arr.c_truth(g.at({})))))
        return
    want = set(DM) | set(fe)
    h.prove("dimensions", set(g.dims) == want)
    h.prove("definition matrix", h.forall(list(W.d.values()), lambda env: Iff(arr.c_truth(at(h, g, env)), at(h, dm, env).val)))
    h.prove("inputs unmodified", W.unmodified())


@contract("C08", targets=["parsing.ParsedBackendEquation.drop_dims_not_in_foreach"], trials=60)
def drop_dims(h):
    """An index of foreach is kept exactly when some combination of the other dimensions is."""
    fe = h.choose("foreach", [f for f in FOREACH if "unknown_dim" not in f and len(f) < 4])
    extra = h.choose("extra", [[], ["carriers"], ["nodes", "carriers"], ["timesteps"]])
    W = World(h, which=[])
    dims = list(dict.fromkeys(extra[:1] + fe[::-1] + extra))
    w = h.array("w", [W.d[d] for d in dims], "b")
    data, pc = _component("variables", {"foreach": fe, "bounds": {"min": 0, "max": 1}})
    with h.patch(*_mods()):
        got = h.call(pc.drop_dims_not_in_foreach, w)
    if isinstance(got, Raised):
        h.prove(f"does not raise ({got})", False)
        return
    g = h.spec(got)
    h.prove("dimensions in the order of foreach", list(g.dims) == fe)
    gone = [d for d in dims if d not in fe]
    h.prove("exists over the dropped dimensions",
            h.forall([W.d[d] for d in fe], lambda env: Iff(arr.c_truth(at(h, g, env)), _exists(W, gone, lambda e: at(h, w, e).val, env))))


def _top_contract(k, n=6):
    def fn(h):
        r = random.Random(f"c08-top-{k}")
        asts = [wast.gen_where(r, k % 3) for _ in range(n)]
        texts = [wast.show(a, r) for a in asts]
        fes = [f for f in FOREACH if "unknown_dim" not in f]
        i = h.choose("string", list(range(n)))
        fe = fes[(i * 7 + k * 3) % len(fes)]
        ast, text = asts[i], texts[i]
        W = World(h, which=sorted({*wast.used(ast), "definition_matrix"}), mint=2, inf="sum(" not in text)
        W.config = {"backend": "pyomo", "ensure_feasibility": h.choose("ef", [True, False]) if "ensure_feasibility" in text else False,
                    "objective": "min_cost_optimisation"}
        bc = build_config(**W.config)
        align = h.choose("align", [True, False]) if i == 0 else True
        data, pc = _component("variables", {"foreach": fe, "where": text, "bounds": {"min": 0, "max": 1}})
        refs = set()
        with h.patch(*_mods()):
            got = h.call(pc.generate_top_level_where_array, W.input_ds, W.backend_ds, mkmath(), bc, align_to_foreach_sets=align, references=refs)
        if isinstance(got, Raised):
            h.prove(f"`{text}` does not raise ({got})", False)
            return
        g = h.spec(got)
        dm = W.inputs["definition_matrix"]
        have = set(DM) | set(fe) | {d for d in g.dims}
        inside = lambda env: And(at(h, dm, env).val, wast.meaning(ast, W, env))
        if align:
            other = [d for d in W.d if d not in fe]
            h.prove(f"built set for foreach {fe} where `{text}`",
                    h.forall([W.d[d] for d in fe], lambda env: _iff_env(h, W, g, fe, env, _exists(W, other, inside, env))))
        else:
            h.prove(f"set before alignment `{text}`", h.forall(list(W.d.values()), lambda env: Iff(arr.c_truth(at(h, g, env)), inside(env))))
        h.prove("inputs unmodified", W.unmodified())

    fn.__doc__ = "The index set of a component is exactly: definition matrix AND its condition, projected on foreach."
    fn.__name__ = f"top_level_where_{k}"
    contract("C08", targets=["parsing.ParsedBackendComponent.generate_top_level_where_array", "parsing.ParsedBackendEquation.evaluate_where",
                             "parsing.ParsedBackendComponent.parse_top_level_where"], trials=30, budget_s=150)(fn)


def _iff_env(h, W, g, fe, env, want):
    """Result may keep its extra dims / drop dims when nothing is true (early exit): then it must be false everywhere."""
    if set(g.dims) == set(fe):
        return Iff(arr.c_truth(at(h, g, env)), want)
    rest = [d for d in g.dims if d not in fe]
    return Iff(_exists(W, rest, lambda e: arr.c_truth(at(h, g, e)), env), want)


for _k in range(6):
    _top_contract(_k)


# ---------------------------------------------------------------- equations

CONDS = {
    "True": lambda W, e: True,
    "l_bool": lambda W, e: at(W.h, W.inputs["l_bool"], e).val,
    "NOT l_bool": lambda W, e: Not(at(W.h, W.inputs["l_bool"], e).val),
    "p_t>1": lambda W, e: wast.meaning(("cmp", ("num_in", "p_t"), ">", ("num", "1")), W, e),
    "p_nt": lambda W, e: wast.meaning(("in", "p_nt"), W, e),
    "NOT p_nt AND l_bool": lambda W, e: And(Not(wast.meaning(("in", "p_nt"), W, e)), at(W.h, W.inputs["l_bool"], e).val),
    "carrier_in": lambda W, e: at(W.h, W.inputs["carrier_in"], e).val,
}
EXPRS = ["p_t", "p_t + 2", "p_nt", "3", "p_scalar - 1"]


def _eqs_contract(k):
    combos = [
        (["nodes", "techs"], [("l_bool", "p_t", None), ("NOT l_bool", "p_nt", None)]),
        (["nodes", "techs"], [("p_t>1", "p_t + 2", None), ("l_bool", "3", None)]),
        (["techs", "nodes"], [("NOT p_nt AND l_bool", "p_t", None), ("p_nt", "p_nt + 1", None)]),
        (["techs"], [("carrier_in", "p_t", None)]),
        (["techs"], [("l_bool", "3", None), ("p_nt", "p_t", None)]),
        (["nodes", "techs"], [("True", "$s", [("l_bool", "p_t"), ("NOT l_bool", "4")])]),
        (["nodes", "techs"], [("p_nt", "$s + 1", [("l_bool", "p_t"), ("p_t>1", "4")])]),
        ([], [("True", "3", None)]),
        ([], [("carrier_in", "p_scalar - 1", None), ("l_bool", "2", None)]),
    ]

    def fn(h):
        from calliope.backend import backend_model, pyomo_backend_model

        mine = combos[k::3]
        fe, eqs = mine[h.choose("case", list(range(len(mine))))]
        spec = {"foreach": fe, "default": 0, "equations": [{"where": w, "expression": e} for w, e, _ in eqs]}
        for _, _, s in eqs:
            if s:
                spec["sub_expressions"] = {"s": [{"where": w, "expression": e} for w, e in s]}
        W = World(h, which=["l_bool", "p_t", "p_nt", "p_scalar", "carrier_in", "definition_matrix"], inf=False)
        data, pc = _component("global_expressions", spec)
        top = h.array("top", [W.d[d] for d in fe], "b")
        me = types.SimpleNamespace(inputs=W.input_ds, math=mkmath(), config=build_config())
        me._raise_idx_overlap_error = lambda *a: backend_model.BackendModelGenerator._raise_idx_overlap_error(me, *a)
        setter = lambda *a: pyomo_backend_model.PyomoBackendModel._add_global_expression(me, *a)
        refs = set()
        with h.patch(*_mods()):
            got = h.call(backend_model.BackendModelGenerator._eval_equations, me, "foo", pc, W.backend_ds, top, setter, refs)
        # expanded equations: (conditions, value)
        flat = []
        for w, e, s in eqs:
            if s:
                flat += [([w, sw], e.replace("$s", f"({se})")) for sw, se in s]
            else:
                flat.append(([w], e))
        other = [d for d in W.d if d not in fe and d != "timesteps"]

        def applies(i, env):
            return _exists(W, other, lambda x: And(at(h, top, x).val if fe else at(h, top, {}).val, *[CONDS[c](W, x) for c in flat[i][0]]), env)

        overlap = lambda env: Or(*[And(applies(i, env), applies(j, env)) for i in range(len(flat)) for j in range(i)]) if len(flat) > 1 else False
        D = [W.d[d] for d in fe]
        if isinstance(got, Raised):
            from calliope.exceptions import BackendError
            h.prove(f"raises BackendError only on overlapping equations ({got})",
                    And(got.isa(BackendError), _exists(W, fe, overlap, {})))
            return
        h.prove("overlapping equations never pass silently", h.forall(D, lambda env: Not(overlap(env))))
        g = h.spec(got)
        if set(g.dims) != set(fe):
            h.prove(f"a dimensionless empty result only when nothing is built {list(g.dims)} {fe} {eqs}",
                    h.forall(D, lambda env: And(len(g.dims) == 0, at(h, g, env).null, *[Not(applies(i, env)) for i in range(len(flat))])))
            return

        def f(env):
            c = at(h, g, env)
            parts = [Iff(Not(c.null), Or(*[applies(i, env) for i in range(len(flat))]))]
            for i, (_, e) in enumerate(flat):
                v = _val(h, W, e, env)
                parts.append(Implies(And(applies(i, env), Not(v.null)), And(c.val == v.val)))
            return And(*parts)

        h.prove("exists exactly where one equation applies, with that equation's value", h.forall(D, f))
        h.prove("inputs unmodified", W.unmodified())

    fn.__doc__ = "A component with equations exists exactly where top-level and one equation's conditions hold; overlap is an error."
    fn.__name__ = f"equations_{k}"
    contract("C08", targets=["backend_model.BackendModelGenerator._eval_equations", "backend_model.BackendModelGenerator._raise_idx_overlap_error",
                             "pyomo_backend_model.PyomoBackendModel._add_global_expression", "parsing.ParsedBackendEquation.evaluate_expression",
                             "parsing.ParsedBackendEquation.raise_error_on_where_expr_mismatch"], trials=40, budget_s=200)(fn)


def _val(h, W, e, env):
    from .common import default_of, filled
    from dv.arr import c_add, c_sub, const_cell

    e = e.replace("(", "").replace(")", "").split()
    out = None
    for i in range(0, len(e), 2):
        t = e[i]
        c = const_cell(float(t)) if t.isdigit() else filled(at(h, W.inputs[t], env), default_of(t))
        out = c if out is None else (c_add if e[i - 1] == "+" else c_sub)(out, c)
    return out


for _k in range(3):
    _eqs_contract(_k)


# ---------------------------------------------------------------- bounded: real builds against the reference interpreter


@bounded("C08", targets=["model.Model.build", "backend_model.BackendModelGenerator.add_optimisation_components"], trials=16, shards=4, budget_s=400)
def random_components_built_exactly(b):
    """Random variables, expressions and constraints over random data: existence and content equal to the reference interpretation;
    overlapping equations fail the build."""
    from calliope.exceptions import BackendError

    from . import randmath as Q
    from . import refmath as R

    m = Q.model(b.rng)
    acc = Q.acceptor(m)
    for _ in range(3):
        comps, rejected = Q.random_math(b.rng, acc)
        if not comps["objectives"]:
            continue
        Q.set_math(m, comps)
        ref = R.reference(m)
        b.case("math", {g: sorted(v) for g, v in comps.items()})
        try:
            m.build(force=True)
        except Exception as e:
            b.check("a well-formed formulation builds", False, {"error": repr(e)[:400], "math": str(comps)[:3000]})
            continue
        R.compare(b, m, ref)
        for grp, name, c, why in rejected[:1]:
            if why != "overlap":
                continue
            bad = {g: dict(v) for g, v in comps.items()}
            bad[grp][name] = c
            if acc(bad) != "overlap":
                continue
            Q.set_math(m, bad)
            try:
                m.build(force=True)
                err = None
            except BackendError as e:
                err = e
            except Exception as e:
                b.check("overlapping equations give a BackendError", False, repr(e)[:300])
                continue
            b.case("overlap", name)
            b.check("overlapping equations fail the build", err is not None, {"component": str(c)[:2000]})


@bounded("C08", targets=["model.Model.build"], trials=4, shards=4, budget_s=300)
def base_formulation_built_exactly(b):
    """Every component of the base formulation on a random model exists exactly where its text says."""
    from . import mini
    from . import refmath as R

    m, over = mini.random_model(b.rng)
    b.case("model", sorted(over["techs"]))
    m.build()
    R.compare(b, m, R.reference(m))
