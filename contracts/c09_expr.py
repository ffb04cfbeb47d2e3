"""C09: math strings evaluate to the arithmetic they state."""
import itertools
import random

import z3

from dv import arr, core
from dv.arr import Cell, c_ite, c_neg, const_cell
from dv.core import And, B, Iff, Implies, Not, Or
from dv.harness import Raised, same
from dv.registry import bounded, contract

from contracts import wast
from contracts.common import MATH, StubEval, World, at, build_config, default_of, filled, mkmath, mods, names, parr

ALLN = sorted(set().union(*names().values()))
LABELS = {"techs": ["foo", "bar", "t0"], "nodes": ["n0", "n1"]}


def _ep():
    from calliope.backend import expression_parser

    return expression_parser


def _where(h, W, dims):
    return h.array("where", [W.d[x] for x in dims], "b")


def cdef(name):
    """Declared default of any component."""
    for g in ("variables", "global_expressions"):
        if name in MATH[g]:
            return MATH[g][name].get("default", float("nan"))
    return default_of(name)


def comp(W, name, env):
    """Value of a component: missing entries take its declared default."""
    h = W.h
    if name not in W.all:
        return const_cell(float("nan"))
    return filled(at(h, W.all[name], env), cdef(name))


def prove_value(h, label, got, want, dims, under=None, must=True):
    if isinstance(got, Raised):
        h.prove(f"{label} (raised {got.type}: {str(got.exc)[:120]})", False)
        return
    s = h.spec(got)
    if not set(s._d) <= {d.name for d in dims}:
        h.prove(label + f" (dimensions {s._d})", False)
        return
    h.prove(label, h.forall(dims, lambda env: Implies(under(env) if under else True,
                                                      same(s.at({k: env[k] for k in s._d}), want(env)))))


# ---------------------------------------------------------------------- nodes


@contract("C09", targets=["expression_parser.EvalOperatorOperand.as_array", "expression_parser.EvalOperatorOperand._operate",
                          "expression_parser.EvalOperatorOperand._operator_operands",
                          "expression_parser.EvalOperatorOperand._apply_where_array"], trials=80, budget_s=150)
def operator_chain(h):
    """`a op b op c …` is the left fold of the pointwise operation; every operand is masked by where."""
    ep = _ep()
    W = World(h, which=["p_scalar"])
    d = W.d
    n = h.choose("operands", [2, 3])
    grp = h.choose("level", [["+", "-"], ["*", "/"], ["**"]])
    shapes = [[d["nodes"], d["techs"]], [d["techs"]], [d["timesteps"]]]
    w = _where(h, W, ["nodes", "techs", "timesteps"])
    vals, toks = [], []
    for i in range(n):
        if grp == ["**"] and i:
            a = h.choose(f"e{i}", [2.0, 1.0])
            import xarray as xr
            vals.append(const_cell(a))
            toks += ["**", StubEval(xr.DataArray(a) if h.mode == "concrete" else arr.const(a))]
            continue
        kind = "f" if grp == ["*", "/"] else h.choose(f"k{i}", ["f", "O"])
        a = h.array(f"a{i}", shapes[i], kind)
        if i:
            op = h.choose(f"o{i}", grp)
            if op == "/":
                h.assume(h.forall(shapes[i], lambda env: Or(h.cell(a, env).null, Not(h.cell(a, env).val == 0))))
            toks.append(op)
        vals.append(a)
        toks.append(StubEval(a))
    with h.patch(*mods()):
        got = h.call(ep.EvalOperatorOperand("s", 0, [toks]).eval, "array", W.attrs(where=w, helpers="expression"))

    def want(env):
        def v(x):
            return x if isinstance(x, Cell) else at(h, x, env)
        out = v(vals[0])
        for i in range(1, n):
            out = wast.OPS[toks[2 * i - 1]](out, v(vals[i]))
        return c_ite(at(h, w, env).val, out, const_cell(float("nan")))

    prove_value(h, "fold, masked by where", got, want, [d["nodes"], d["techs"], d["timesteps"]])


@contract("C09", targets=["expression_parser.EvalSignOp.as_array", "expression_parser.EvalSignOp._eval"])
def leading_sign(h):
    """A leading minus negates its operand; a plus changes nothing."""
    ep = _ep()
    W = World(h, which=["p_scalar"])
    s = h.choose("sign", ["+", "-"])
    a = h.array("a", [W.d["nodes"], W.d["techs"]], h.choose("kind", ["f", "O"]), inf=False)
    with h.patch(*mods()):
        got = h.call(ep.EvalSignOp("s", 0, [[s, StubEval(a)]]).eval, "array", W.attrs(helpers="expression"))
    prove_value(h, "sign", got, lambda env: c_neg(arr.num(at(h, a, env))) if s == "-" else at(h, a, env),
                [W.d["nodes"], W.d["techs"]])


@contract("C09", targets=["expression_parser.EvalComparisonOp.as_array", "expression_parser.EvalComparisonOp._eval"], trials=60)
def equation_comparison(h):
    """Where the equation applies, the constraint relates the two sides in the order and with the operator
    written; elsewhere nothing is created; a side with dimensions outside `foreach` is an error."""
    ep = _ep()
    W = World(h, which=["p_scalar"])
    d = W.d
    op = h.choose("op", ["<=", ">=", "=="])
    shape = h.choose("rhs dims", [["techs"], [], ["nodes", "techs"], ["timesteps"]])
    lhs = h.array("lhs", [d["techs"], d["nodes"]], "f")
    rhs = h.array("rhs", [d[x] for x in shape], "f")
    w = _where(h, W, ["nodes", "techs"])
    with h.patch(*mods()):
        got = h.call(ep.EvalComparisonOp("s", 0, [StubEval(lhs), op, StubEval(rhs)]).eval, "array",
                     W.attrs(where=w, helpers="expression"))
    if shape == ["timesteps"]:
        from calliope.exceptions import BackendError
        h.prove("extra dimension is an error", isinstance(got, Raised) and got.isa(BackendError))
        return
    if isinstance(got, Raised):
        h.prove("does not raise", False)
        return
    dims = [d["nodes"], d["techs"]]

    def f(env):
        c = h.cell(got, {k: env[k] for k in ("nodes", "techs")})
        a, b = at(h, lhs, env), at(h, rhs, env)
        applies = at(h, w, env).val
        both = And(Not(a.null), Not(b.null))
        return And(Iff(c.null, Not(applies)), Implies(And(applies, both), Iff(c.val if c.kind in "CbB" else arr.c_truth(c), wast.CMP[op](a, b).val)))

    h.prove("relation", h.forall(dims, f))


@contract("C09", targets=["expression_parser.EvalUnslicedComponent.as_array"], trials=80)
def component_reference(h):
    """A bare name is the component's array with missing entries replaced by its declared default."""
    ep = _ep()
    name = h.choose("name", wast.NUM_INPUTS + wast.STR_INPUTS + wast.RESULTS + ["l_bool", "groups", "p_undef"])
    W = World(h, which=[name])
    asv = h.choose("as_values", [False, True])
    for k, a in W.inputs.items():
        kind = "lookups" if k.startswith("l_") else "parameters"
        if h.mode == "concrete":
            W.backend_ds[k].attrs["obj_type"] = kind
            W.snap[k].attrs["obj_type"] = kind
            W.input_ds[k].attrs.update(W.backend_ds[k].attrs) if False else None
        else:
            W.backend_ds._arrays[k]._attrs_["obj_type"] = kind
    with h.patch(*mods()):
        at_ = W.attrs(helpers="expression", as_values=asv)
        got = h.call(ep.EvalUnslicedComponent("s", 0, [name]).eval, "array", at_)
    if name == "p_undef":
        from calliope.exceptions import BackendError
        h.prove("undefined component is an error", isinstance(got, Raised) and got.isa(BackendError))
        return
    if name == "groups":
        prove_value(h, "undefined dimension is missing", got, lambda env: const_cell(float("nan")), [])
        return
    src = W.all[name]
    prove_value(h, "value with default", got, lambda env: comp(W, name, env), [W.d[x] for x in src.dims])
    h.prove("reference recorded", name in at_.references)


@contract("C09", targets=["expression_parser.EvalSlicedComponent.as_array", "expression_parser.EvalSlicedComponent._eval",
                          "expression_parser.EvalIndexSlice.as_array", "expression_parser.EvalIndexSlice._eval",
                          "expression_parser.ListParser.as_array", "expression_parser.EvalGenericString.as_array",
                          "expression_parser.generate_slice_parser"], trials=80)
def slices(h):
    """`name[dim=label]`, `[dim=[a, b]]`, `[dim=$ref]`: exactly the named labels, nothing else changed."""
    ep = _ep()
    W = World(h, which=["p_nt", "p_t", "v_nts"], labels=LABELS)
    d = W.d
    text, pick, fixed, lists = h.choose("slice", [
        ("p_nt[techs=foo]", "p_nt", {"techs": ["foo"]}, []),
        ("p_nt[techs=bar,nodes=n1]", "p_nt", {"techs": ["bar"], "nodes": ["n1"]}, []),
        ("p_nt[techs=[bar,foo]]", "p_nt", {"techs": ["bar", "foo"]}, ["techs"]),
        ("v_nts[techs=t0, nodes=[n1]]", "v_nts", {"techs": ["t0"], "nodes": ["n1"]}, ["nodes"]),
        ("p_t[techs=$ref]", "p_t", {"techs": ["bar"]}, []),
        ("v_nts[nodes=n0, techs=$lst]", "v_nts", {"nodes": ["n0"], "techs": ["t0", "bar"]}, ["techs"]),
    ])
    with h.patch(*mods()):
        sl = ep.generate_slice_parser(ALLN)
        sd = {"ref": sl.parse_string("bar", parse_all=True), "lst": sl.parse_string("[t0, bar]", parse_all=True)}
        p = ep.generate_arithmetic_parser(ALLN)
        got = h.call(lambda: p.parse_string(text, parse_all=True)[0].eval("array", W.attrs(helpers="expression", slice_dict=sd)))
    if isinstance(got, Raised):
        h.prove(f"does not raise ({got})", False)
        return
    s = h.spec(got)
    src = W.all[pick]
    h.prove("dimensions", set(s._d) == (set(src.dims) - set(fixed)) | set(lists))
    free = [d[x] for x in src.dims if x not in fixed]
    for combo in itertools.product(*[range(len(v)) for v in fixed.values()]):
        ix = dict(zip(fixed, combo))

        def f(env):
            e_src = {**env, **{k: z3.IntVal(LABELS[k].index(fixed[k][j])) for k, j in ix.items()}}
            e_got = {**env, **{k: z3.IntVal(ix[k]) for k in lists}}
            return same(s.at({k: e_got[k] for k in s._d}), comp(W, pick, e_src))

        h.prove(f"selected {ix}", h.forall(free, f))
    for k in lists:
        D = s._dm[k]
        h.prove("number of labels", D.n == len(fixed[k]))


@contract("C09", targets=["expression_parser.EvalIndexSlice.as_array", "expression_parser.EvalSlicedComponent.as_array"], trials=40)
def slice_by_lookup(h):
    """`v[techs=$ref]` with `ref: l_x` (an input holding tech names per node) selects, at each node, that node's tech."""
    ep = _ep()
    W = World(h, which=["p_t"], labels=LABELS)
    d = W.d
    look = h.array("l_str", [d["nodes"]], "S", null=False, values=["foo", "bar", "t0"])
    if h.mode == "concrete":
        W.input_ds["l_str"] = look
        W.backend_ds["l_str"] = look
    else:
        W.input_ds["l_str"] = look
        W.backend_ds["l_str"] = look
    W.backend_ds["l_str"].attrs["obj_type"] = "lookups"
    W.backend_ds["p_t"].attrs["obj_type"] = "parameters"
    with h.patch(*mods()):
        sd = {"ref": ep.generate_slice_parser(ALLN).parse_string("l_str", parse_all=True)}
        p = ep.generate_arithmetic_parser(ALLN)
        got = h.call(lambda: p.parse_string("p_t[techs=$ref]", parse_all=True)[0].eval("array", W.attrs(helpers="expression", slice_dict=sd)))

    def want(env):
        lab = at(h, look, env)
        out = const_cell(float("nan"))
        for j, x in enumerate(LABELS["techs"]):
            out = c_ite(arr.c_eq(lab, const_cell(x)).val, comp(W, "p_t", {"techs": z3.IntVal(j)}), out)
        return out

    prove_value(h, "value at the looked-up label", got, want, [d["nodes"]])


@contract("C09", targets=["expression_parser.EvalNumber.as_array", "expression_parser.setup_base_parser_elements"])
def numbers(h):
    """Number literals have their value."""
    ep = _ep()
    W = World(h, which=["p_scalar"])
    t, v = h.choose("text", [("1", 1), ("0.25", .25), ("1e3", 1000), ("2E-1", .2), ("10.", 10), ("inf", float("inf")), (".inf", float("inf")), ("INF", float("inf"))])
    with h.patch(*mods()):
        p = ep.generate_arithmetic_parser(ALLN)
        got = h.call(lambda: p.parse_string(t, parse_all=True)[0].eval("array", W.attrs(helpers="expression")))
    prove_value(h, "literal", got, lambda env: const_cell(float(v)), [])


@contract("C09", targets=["expression_parser.EvalFunction._eval", "expression_parser.EvalFunction._arg_eval",
                          "expression_parser.EvalHelperFuncName.as_callable", "expression_parser.helper_function_parser"])
def function_call(h):
    """A helper call receives exactly its evaluated arguments in order and keyword arguments by name; helpers
    declared to ignore `where` get unmasked operands; unknown helpers are an error."""
    ep = _ep()
    from calliope.backend import helper_functions as hf

    W = World(h, which=["p_nt", "p_t", "v_nt"])
    ign = h.choose("ignore_where", [False, True])
    calls = []

    class Rec(hf.ParsingHelperFunction):
        NAME = "rec_"
        ALLOWED_IN = []
        ignore_where = ign

        def as_math_string(self):
            return ""

        def as_array(self, *a, **k):
            calls.append((a, k))
            return a[0]

    w = _where(h, W, ["nodes", "techs"])
    unknown = h.choose("unknown", [False, True])
    with h.patch(*mods()):
        p = ep.generate_arithmetic_parser(ALLN)
        at_ = W.attrs(where=w, helpers="expression", )
        at_.helper_functions = {} if unknown else {"rec": Rec}
        got = h.call(lambda: p.parse_string("rec(p_nt + v_nt, p_t, lab, [a, b], key=p_nt, n=2)", parse_all=True)[0].eval("array", at_))
    if unknown:
        from calliope.exceptions import BackendError
        h.prove("unknown helper is an error", isinstance(got, Raised) and got.isa(BackendError))
        return
    if isinstance(got, Raised) or len(calls) != 1:
        h.prove(f"called once ({got})", False)
        return
    (a, k) = calls[0]
    h.prove("arity", len(a) == 4 and set(k) == {"key", "n"})
    dims = [W.d["nodes"], W.d["techs"]]

    def want(env):
        v = arr.c_add(comp(W, "p_nt", env), comp(W, "v_nt", env))
        return v if ign else c_ite(at(h, w, env).val, v, const_cell(float("nan")))

    prove_value(h, "first argument", a[0], want, dims)
    prove_value(h, "second argument", a[1], lambda env: comp(W, "p_t", env), dims)
    h.prove("label argument", (a[2] if isinstance(a[2], str) else a[2].item()) == "lab")
    h.prove("list argument", [x.name for x in a[3]] == ["a", "b"])
    prove_value(h, "keyword argument", k["key"], lambda env: comp(W, "p_nt", env), dims)
    prove_value(h, "number argument", k["n"], lambda env: const_cell(2.0), [])
    h.prove("caller's where unchanged", at_.where_array is w)


# ---------------------------------------------------------------------- whole strings

LEAVES = ["p_nt", "p_t", "p_nan", "p_ts", "p_scalar", "v_nt", "v_nts", "e_nt"]


def gen_expr(r, depth, refs=(), lin=False):
    if depth <= 0 or r.random() < 0.3:
        k = r.random()
        if k < 0.25:
            return ("num", r.choice(["1", "2", "0.5", "3", "1e1"]))
        if refs and k < 0.6:
            return ("text", "$" + r.choice(list(refs)))
        if k > 0.88:
            return ("text", r.choice(["p_nt[techs=foo]", "v_nts[techs=bar]", "p_t[techs=t0]"]))
        return ("num_in", r.choice(LEAVES))
    k = r.random()
    if k < 0.2:
        return ("sign", r.choice("+--"), gen_expr(r, depth - 1, refs, lin))
    if k < 0.35 and not lin:
        return ("arith", gen_expr(r, depth - 1, refs), [("**", ("num", r.choice(["2", "1"]))) for _ in range(r.choice([1, 1, 2]))])
    n = r.choice([1, 1, 2, 3])
    if k < 0.65:
        out = []
        for _ in range(n):
            if lin or r.random() < 0.4:
                out.append(("/", ("num", r.choice(["2", "4", "0.5"]))))
            else:
                out.append(("*", gen_expr(r, depth - 2, refs)))
        return ("arith", gen_expr(r, depth - 1, refs, lin), out)
    return ("arith", gen_expr(r, depth - 1, refs, lin), [(r.choice("+-"), gen_expr(r, depth - 1, refs, lin)) for _ in range(n)])


def mentioned(n, out):
    if n[0] == "num_in":
        out.add(n[1])
    elif n[0] == "text":
        out.add(n[1].split("[")[0])
    elif n[0] == "sign":
        mentioned(n[2], out)
    elif n[0] == "arith":
        mentioned(n[1], out)
        for _, x in n[2]:
            mentioned(x, out)
    return out


def expr_val(W, n, env, subs=None, labels=LABELS):
    """Independent meaning of an expression at an index."""
    def leaf(m):
        t = m[1]
        if t.startswith("$"):
            return expr_val(W, subs[t[1:]], env, subs)
        if "[" in t:
            nm, rest = t[:-1].split("[")
            dim, lab = rest.split("=")
            if lab.startswith("$"):
                lab = subs[lab[1:]]
            return comp(W, nm, {**env, dim: z3.IntVal(labels[dim].index(lab))})
        return comp(W, t, env)

    return wast.val_arith(n, leaf)


def used_subs(n, subs, out=None):
    out = set() if out is None else out
    for t in mentioned(n, set()):
        if t.startswith("$"):
            out.add(t[1:])
    return out


def _string_contract(k, n, depth, kind):
    def fn(h):
        ep = _ep()
        r = random.Random(f"c09-{kind}-{k}")
        items = []
        for _ in range(n):
            a, b = gen_expr(r, depth), gen_expr(r, max(0, depth - 1))
            op = r.choice(["<=", ">=", "=="])
            items.append((a, b, op, wast.show_arith(a, r), wast.show_arith(b, r)))
        a, b, op, ta, tb = items[h.choose("string", list(range(n)))]
        use = mentioned(a, set()) | (mentioned(b, set()) if kind == "equation" else set())
        W = World(h, which=sorted(use), inf=False, labels=LABELS)
        w = _where(h, W, ["nodes", "techs", "timesteps"])
        dims = [W.d[x] for x in ("nodes", "techs", "timesteps")]
        with h.patch(*mods()):
            p = (ep.generate_arithmetic_parser if kind == "arithmetic" else ep.generate_equation_parser)(ALLN)
            if kind == "sub":
                p = ep.generate_sub_expression_parser(ALLN)
            text = f"{ta} {op} {tb}" if kind == "equation" else ta
            got = h.call(lambda: p.parse_string(text, parse_all=True)[0].eval("array", W.attrs(where=w, helpers="expression")))
        if kind != "equation":
            prove_value(h, f"value of `{text}`", got, lambda env: expr_val(W, a, env), dims, under=lambda env: at(h, w, env).val)
        elif isinstance(got, Raised):
            h.prove(f"`{text}` does not raise", False)
        else:
            def f(env):
                c = at(h, h.spec(got), env)
                x, y = expr_val(W, a, env), expr_val(W, b, env)
                ap = at(h, w, env).val
                return And(Iff(c.null, Not(ap)), Implies(And(ap, Not(x.null), Not(y.null)), Iff(c.val if c.kind in "CbB" else arr.c_truth(c), wast.CMP[op](x, y).val)))
            h.prove(f"relation `{text}`", h.forall(dims, f))
        h.prove("data unmodified", W.unmodified())

    fn.__doc__ = f"Whole {kind} strings: parsed by the real grammar, evaluated on arbitrary arrays, equal to ordinary arithmetic."
    fn.__name__ = f"{kind}_strings_{k}"
    contract("C09", targets=["expression_parser.arithmetic_parser", f"expression_parser.generate_{kind}_parser",
                             "expression_parser.equation_comparison_parser", "expression_parser.unsliced_object_parser",
                             "expression_parser.sliced_param_or_var_parser"], trials=30, budget_s=200)(fn)


for _k in range(6):
    _string_contract(_k, 10, 1 + _k % 3, "arithmetic")
for _k in range(2):
    _string_contract(_k, 8, 1 + _k, "equation")
_string_contract(0, 8, 2, "sub")


# ---------------------------------------------------------------------- $references


def _group(r, group):
    subs = {}
    return subs


def _combos_contract(k):
    def fn(h):
        from calliope.backend import parsing
        from calliope.schemas import math_schema

        r = random.Random(f"c09-refs-{k}")
        cases = []
        while len(cases) < 2:
            nsub = r.choice([1, 2])
            slc = {"s0": r.sample(["foo", "bar", "t0"], r.choice([1, 2]))} if r.random() < 0.7 else {}
            subs = {}
            for i in range(nsub):
                alts = []
                for _ in range(r.choice([1, 2])):
                    e = gen_expr(r, 1, lin=True)
                    if slc and r.random() < 0.6:
                        e = ("arith", e, [("+", ("text", "p_nt[techs=$s0]"))])
                    alts.append((e, r.choice(["True", "l_bool", "p_t>1", "p_nt", "NOT l_bool"])))
                subs[f"e{i}"] = alts
            eqs = []
            for _ in range(r.choice([1, 2])):
                lhs = gen_expr(r, 2, refs=list(subs), lin=True)
                if slc and r.random() < 0.4:
                    lhs = ("arith", lhs, [("-", ("text", "p_t[techs=$s0]"))])
                rhs = gen_expr(r, 1, refs=list(subs) if r.random() < 0.3 else (), lin=True)
                eqs.append((lhs, r.choice(["<=", ">=", "=="]), rhs, r.choice(["True", "l_bool", "p_scalar", "p_t<=2"])))
            cases.append((eqs, subs, slc, r.choice(["True", "p_nt or l_bool"])))
        eqs, subs, slc, top = cases[h.choose("component", list(range(len(cases))))]
        comp_def = {
            "foreach": ["nodes", "techs", "timesteps"], "where": top,
            "equations": [{"expression": f"{wast.show_arith(a)} {op} {wast.show_arith(b)}", "where": w} for a, op, b, w in eqs],
            "sub_expressions": {n: [{"expression": wast.show_arith(e), "where": w} for e, w in alts] for n, alts in subs.items()},
            "slices": {n: [{"expression": x, "where": "True" if i == 0 else "p_nan"} for i, x in enumerate(v)] for n, v in slc.items()},
        }
        dims_ = ("nodes", "techs", "timesteps")
        # the expected list: equation x the alternatives of the references it (transitively) uses
        expected = []
        for a, op, b, w in eqs:
            use = sorted(used_subs(a, subs) | used_subs(b, subs))
            for alt in itertools.product(*[range(len(subs[u])) for u in use]):
                chosen = {u: subs[u][j] for u, j in zip(use, alt)}
                parts = [a, b, *[c[0] for c in chosen.values()]]
                us = any("$s0" in t for x in parts for t in _texts(x))
                for sl in (range(len(slc["s0"])) if us else [None]):
                    m = {u: c[0] for u, c in chosen.items()}
                    conds = [w, *[c[1] for c in chosen.values()]]
                    if sl is not None:
                        m["s0"] = slc["s0"][sl]
                        conds.append("True" if sl == 0 else "p_nan")
                    expected.append((a, op, b, m, conds))
        data = math_schema.Constraint.model_validate(comp_def)
        with h.patch(*mods()):
            pc = parsing.ParsedBackendComponent("constraints", "foo", data, {"where": names(), "expression": names()})
            parsed = h.call(pc.parse_equations)
            if isinstance(parsed, Raised):
                h.prove(f"parses ({parsed})", False)
                return
            h.prove("one equation per combination", len(parsed) == len(expected))
            h.prove("names are distinct", len({p.name for p in parsed}) == len(parsed))
            # match by (condition, both sides) at a generic index: every expected equation has its own parsed one
            i = h.choose("equation", list(range(len(expected))))
            a, op, b, m, conds = expected[i]
            use = set().union(*[mentioned(x, set()) for x in [a, b, *[v for v in m.values() if not isinstance(v, str)]]])
            use |= {x for c in conds for x in ("l_bool", "p_t", "p_nt", "p_scalar", "p_nan") if x in c}
            W = World(h, which=sorted(x for x in use if not x.startswith("$")), inf=False, labels=LABELS)
            dims = [W.d[x] for x in dims_]
            w_arr = _where(h, W, dims_)
            key = _keyof(h, W, parsed, i, expected)
            got_w = h.call(parsed[key].evaluate_where, W.input_ds, W.backend_ds, mkmath(), build_config(), references=set())
            got = h.call(parsed[key].evaluate_expression, W.input_ds, W.backend_ds, mkmath(), where=w_arr, references=set()) \
                if False else h.call(parsed[key].expression[0].eval, "array",
                                     W.attrs(where=w_arr, helpers="expression", slice_dict=parsed[key].slices, sub_expression_dict=parsed[key].sub_expressions))
        if isinstance(got, Raised) or isinstance(got_w, Raised):
            h.prove(f"evaluates ({got}, {got_w})", False)
            return
        h.prove(f"condition {conds}", h.forall(dims, lambda env: Iff(arr.c_truth(at(h, h.spec(got_w), env)), And(*[_cond(W, c, env) for c in conds]))))

        def f(env):
            c = at(h, h.spec(got), env)
            x, y = expr_val(W, a, env, m), expr_val(W, b, env, m)
            return Implies(And(at(h, w_arr, env).val, Not(x.null), Not(y.null)), Iff(c.val if c.kind in "CbB" else arr.c_truth(c), wast.CMP[op](x, y).val))

        h.prove("relation after substitution", h.forall(dims, f))

    fn.__doc__ = "Components with alternatives: one equation per combination of the referenced alternatives, conditions conjoined, references substituted."
    fn.__name__ = f"reference_combinations_{k}"
    contract("C09", targets=["parsing.ParsedBackendComponent.parse_equations", "parsing.ParsedBackendComponent.generate_expression_list",
                             "parsing.ParsedBackendComponent.extend_equation_list_with_expression_group",
                             "parsing.ParsedBackendEquation.add_expression_group_combination",
                             "parsing.ParsedBackendEquation.find_sub_expressions", "parsing.ParsedBackendEquation.find_slices",
                             "parsing.ParsedBackendEquation._find_items_in_expression", "parsing.ParsedBackendEquation.evaluate_where",
                             "expression_parser.EvalSubExpressions.as_array"], trials=12, budget_s=200)(fn)


def _texts(n):
    if n[0] == "text":
        return [n[1]]
    if n[0] == "sign":
        return _texts(n[2])
    if n[0] == "arith":
        return _texts(n[1]) + [t for _, x in n[2] for t in _texts(x)]
    return []


def _cond(W, c, env):
    ast = {
        "True": ("bool", "True"), "l_bool": ("in", "l_bool"), "p_nt": ("in", "p_nt"), "p_scalar": ("in", "p_scalar"), "p_nan": ("in", "p_nan"),
        "NOT l_bool": ("not", ("in", "l_bool")), "p_t>1": ("cmp", ("num_in", "p_t"), ">", ("num", "1")),
        "p_t<=2": ("cmp", ("num_in", "p_t"), "<=", ("num", "2")),
    }[c]
    return wast.meaning(ast, W, env)


def _keyof(h, W, parsed, i, expected):
    """Position of the parsed equation for the expected one: same equation, same alternatives (by their text)."""
    a, op, b, m, conds = expected[i]
    want = {}
    for u, e in m.items():
        want[u] = e if isinstance(e, str) else wast.show_arith(e)
    # order of the definition: equations in order; alternatives identified by content
    eq_order = []
    for x in expected:
        if (x[0], x[2], x[1], x[4][0]) not in eq_order:
            eq_order.append((x[0], x[2], x[1], x[4][0]))
    n = eq_order.index((a, b, op, conds[0]))
    out = []
    for j, p in enumerate(parsed):
        head = p.name.split("-")[0]
        if not head.endswith(f":{n}"):
            continue
        d = {**p.sub_expressions, **p.slices}
        if set(d) != set(want):
            continue
        if all(_shown(d[u][0]) == _shown_text(want[u], u) for u in want):
            out.append(j)
    if len(out) != 1:
        # two alternatives with the same text: any of them with the right conditions
        same_c = [j for j in out if len(parsed[j].where) == len(conds)]
        k = [x for x in range(len(expected)) if expected[x][:3] == (a, op, b) and {u: str(v) for u, v in expected[x][3].items()} == {u: str(v) for u, v in m.items()}].index(i)
        return same_c[k]
    return out[0]


def _shown(node):
    return repr(node)


def _shown_text(t, u):
    ep = _ep()
    p = ep.generate_slice_parser(ALLN) if u.startswith("s") else ep.generate_sub_expression_parser(ALLN)
    return repr(p.parse_string(t, parse_all=True)[0])


for _k in range(4):
    _combos_contract(_k)
