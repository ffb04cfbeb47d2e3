"""C07: where-strings."""
import random

import z3

from dv import arr, core
from dv.arr import Cell, const_cell
from dv.core import And, B, Iff, Implies, Not, Or
from dv.harness import Raised, same
from dv.registry import bounded, contract

from contracts import wast
from contracts.common import MATH, StubEval, World, build_config, default_of, defined, filled, mkmath, mods, names


def _wp():
    from calliope.backend import where_parser

    return where_parser


def _is_bool(h, got, env, want):
    c = h.cell(got, env)
    return And(Not(c.null), Iff(arr.c_truth(c) if c.kind != "b" else c.val, B(want)))


def _prove_bool(h, label, got, want, dims):
    if isinstance(got, Raised):
        h.prove(label + f" (raised {got.type})", False)
        return
    s = h.spec(got)
    if not set(s._d) <= {d.name for d in dims}:
        h.prove(label + " (dimensions)", False)
        return
    h.prove(label + " is Boolean", s._kind == "b")

    def f(env):
        sub = {d: env[d] for d in s._d}
        return _is_bool(h, got, sub, want(env))

    h.prove(label, h.forall(dims, f))


@contract("C07", targets=["where_parser.EvalNot.as_array"])
def not_operator(h):
    """NOT of any Boolean array is its pointwise negation."""
    wp = _wp()
    W = World(h, which=["l_bool"])
    b = h.array("operand", [W.d["nodes"], W.d["techs"]], "b")
    with h.patch(*mods()):
        node = wp.EvalNot("instr", 0, [["not", StubEval(b)]])
        got = h.call(node.eval, "array", W.attrs())
    _prove_bool(h, "not", got, lambda env: Not(h.cell(b, {k: env[k] for k in ("nodes", "techs")}).val), [W.d["nodes"], W.d["techs"]])


@contract("C07", targets=["where_parser.EvalAndOr.as_array", "where_parser.EvalAndOr._operate",
                          "expression_parser.EvalOperatorOperand._operator_operands"], trials=60)
def and_or_chain(h):
    """A chain `a op b op c …` is the left fold of pointwise and/or (chains of 2-4 operands; longer
    chains by induction: the prefix is itself an arbitrary Boolean array folded with one operand)."""
    wp = _wp()
    W = World(h, which=["l_bool"])
    d = W.d
    shapes = [[d["nodes"], d["techs"]], [d["techs"]], [], [d["techs"], d["timesteps"]]]
    n = h.choose("operands", [2, 3, 4])
    arrs, toks = [], []
    for i in range(n):
        a = h.array(f"op{i}", shapes[i], "b")
        arrs.append(a)
        if i:
            toks.append(h.choose(f"o{i}", ["and", "or"]))
        toks.append(StubEval(a))
    with h.patch(*mods()):
        node = wp.EvalAndOr("instr", 0, [toks])
        got = h.call(node.eval, "array", W.attrs())

    def want(env):
        def v(a):
            return h.cell(a, {k: env[k] for k in a.dims}).val
        out = v(arrs[0])
        for i in range(1, n):
            op = toks[2 * i - 1]
            out = And(out, v(arrs[i])) if op == "and" else Or(out, v(arrs[i]))
        return out

    _prove_bool(h, "fold", got, want, [d["nodes"], d["techs"], d["timesteps"]])


@contract("C07", targets=["where_parser.InputArrayParser.as_array"], trials=80)
def input_reference(h):
    """Bare input: defined and finite; inside a comparison: its value, default-filled."""
    wp = _wp()
    name = h.choose("input", wast.NUM_INPUTS + wast.STR_INPUTS + ["l_bool", "p_undef", "l_undef"])
    W = World(h, which=[name])
    aw = h.choose("apply_where", [True, False])
    with h.patch(*mods()):
        node = wp.InputArrayParser("instr", 0, [name])
        at = W.attrs(apply_where=aw)
        got = h.call(node.eval, "array", at)
    h.prove("unmodified", W.unmodified())
    if isinstance(got, Raised):
        h.prove("does not raise", False)
        return
    h.prove("reference recorded", name in at.references)
    if name not in W.inputs:
        _prove_bool(h, "undefined input is false", got, lambda env: False, [])
        return
    src = W.inputs[name]
    dims = [W.d[x] for x in src.dims]
    if aw or name == "l_bool":
        _prove_bool(h, "defined", got, lambda env: defined(h.cell(src, env)), dims)
    else:
        h.prove("value with default", h.forall(dims, lambda env: same(h.cell(got, env), filled(h.cell(src, env), default_of(name)))))


@contract("C07", targets=["where_parser.ResultArrayParser.as_array"])
def result_reference(h):
    """Bare variable/expression: exists there."""
    wp = _wp()
    name = h.choose("result", wast.RESULTS)
    W = World(h, which=[name])
    with h.patch(*mods()):
        node = wp.ResultArrayParser("instr", 0, [name])
        at = W.attrs()
        got = h.call(node.eval, "array", at)
    src = W.results[name]
    _prove_bool(h, "exists", got, lambda env: Not(h.cell(src, env).null), [W.d[x] for x in src.dims])
    h.prove("reference recorded", name in at.references)
    h.prove("unmodified", W.unmodified())


@contract("C07", targets=["where_parser.DimensionArrayParser.as_array", "where_parser.SubsetParser.as_array",
                          "where_parser.SubsetParser._eval"])
def dimension_subset(h):
    """`[a, b] in dim` holds exactly at the listed labels (strings, numbers or evaluated values)."""
    wp = _wp()
    W = World(h, which=["l_bool"])
    dim = h.choose("dim", ["nodes", "techs"])
    labs = h.choose("labels", [["foo"], ["foo", "bar"], ["foo", "a_b", "n1"]])
    with h.patch(*mods()):
        vals = [wp.GenericStringParser("i", 0, [x]) for x in labs]
        node = wp.SubsetParser("instr", 0, [vals, wp.DimensionArrayParser("i", 0, [dim])])
        got = h.call(node.eval, "array", W.attrs())
    _prove_bool(h, "membership", got,
                lambda env: Or(*[arr.c_eq(W.d[dim].label(env[dim]), const_cell(x)).val for x in labs]), [W.d[dim]])


@contract("C07", targets=["where_parser.ConfigOptionParser.as_array", "where_parser.BoolOperandParser.as_array",
                          "where_parser.GenericStringParser.eval"])
def literals(h):
    """Config references read the option; True/False (any case) are constants; strings are themselves."""
    wp = _wp()
    W = World(h, which=["l_bool"])
    what = h.choose("what", ["cfg_str", "cfg_bool", "true", "false", "string"])
    with h.patch(*mods()):
        if what.startswith("cfg"):
            if what == "cfg_str":
                val = h.choose("backend", ["pyomo", "gurobi"])
                bc, opt = build_config(backend=val), "backend"
            else:
                val = h.choose("ef", [True, False])
                bc, opt = build_config(ensure_feasibility=val), "ensure_feasibility"
            got = h.call(wp.ConfigOptionParser("i", 0, [opt]).eval, "array", W.attrs(build_config=bc))
            h.prove("config value", same(h.cell(got, {}), const_cell(val)))
        elif what == "string":
            h.prove("string value", wp.GenericStringParser("i", 0, ["abc"]).eval("array", W.attrs()) == "abc")
        else:
            txt = h.choose("case", [what, what.upper(), what.capitalize()])
            got = h.call(wp.BoolOperandParser("i", 0, [txt]).eval, "array", W.attrs())
            _prove_bool(h, "literal", got, lambda env: what == "true", [])


@contract("C07", targets=["where_parser.ComparisonParser.as_array", "expression_parser.EvalComparisonOp._eval"], trials=80)
def comparison(h):
    """Comparison is pointwise on the evaluated sides; missing values never satisfy it; the operands are
    evaluated as values (apply_where off) and the surrounding attributes are untouched."""
    wp = _wp()
    W = World(h, which=["l_bool"])
    d = W.d
    op = h.choose("op", list(wast.CMP))
    kind = h.choose("kind", ["f", "S"] if op == "==" else ["f"])
    lhs = h.array("lhs", [d["nodes"], d["techs"]], kind, inf=kind == "f", values=["foo", "bar"])
    if kind == "f":
        rhs = h.array("rhs", [d["techs"]], "f", inf=True)
        rv = StubEval(rhs)
    else:
        rhs = "foo"
        rv = StubEval(lambda at: "foo")
    lv = StubEval(lhs)
    with h.patch(*mods()):
        node = wp.ComparisonParser("i", 0, [lv, op, rv])
        at = W.attrs()
        got = h.call(node.eval, "array", at)

    def want(env):
        a = h.cell(lhs, {k: env[k] for k in ("nodes", "techs")})
        b = const_cell("foo") if kind == "S" else h.cell(rhs, {"techs": env["techs"]})
        return wast.CMP[op](a, b).val

    _prove_bool(h, "comparison", got, want, [d["nodes"], d["techs"]])
    h.prove("operands evaluated as values", all(s.apply_where is False for s in lv.seen + rv.seen) and lv.seen and rv.seen)
    h.prove("caller's attributes unchanged", at.apply_where is True)


LABELS = {"techs": ["foo", "bar", "t0"], "carriers": ["c0", "c1"]}


def _string_contract(k, nstr=8, depth=2, mk=None, labels=None, name="where_strings"):
    def fn(h):
        wp = _wp()
        r = random.Random(f"c07-{name}-{k}" if labels else f"c07-{k}")
        asts = [(mk or wast.gen_where)(r, depth) for _ in range(nstr)]
        texts = [wast.show(a, r) for a in asts]
        i = h.choose("string", list(range(nstr)))
        ast, text = asts[i], texts[i]
        W = World(h, which=sorted(wast.used(ast)), labels=labels, mint=2, inf="sum(" not in text)
        W.config = {"backend": "pyomo", "ensure_feasibility": h.choose("ef", [True, False]) if "ensure_feasibility" in text else False,
                    "objective": "min_cost_optimisation"}
        bc = build_config(**W.config)
        with h.patch(*mods()):
            parser = wp.generate_where_string_parser(**names())
            at = W.attrs(build_config=bc)
            got = h.call(lambda: parser.parse_string(text, parse_all=True)[0].eval("array", at))
        _prove_bool(h, f"meaning of `{text}`", got, lambda env: wast.meaning(ast, W, env), list(W.d.values()))
        h.prove("inputs unmodified", W.unmodified())
        h.prove("references", wast.used(ast) - {"definition_matrix"} <= at.references)

    fn.__doc__ = "Whole condition strings: parsed by the real grammar, evaluated on arbitrary arrays, equal to the independent meaning."
    fn.__name__ = f"{name}_{k}"
    contract("C07", targets=["where_parser.generate_where_string_parser", "where_parser.where_parser",
                             "where_parser.comparison_parser", "where_parser.subset_parser", "where_parser.data_var_parser",
                             "where_parser.config_option_parser", "where_parser.bool_parser",
                             "where_parser.evaluatable_string_parser", "expression_parser.arithmetic_parser"],
             trials=30, sizes=[{}], budget_s=150)(fn)


for _k in range(10):
    _string_contract(_k, nstr=8, depth=1 + _k % 3)

for _k in range(4):
    _string_contract(_k, nstr=8, depth=_k % 3, mk=wast.gen_where_helpers, labels=LABELS, name="where_helper_strings")
