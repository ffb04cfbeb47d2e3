"""Independent meaning of where-strings: AST generator, printer and evaluator.

The evaluator works index by index on cells; it shares no code with calliope's parser
or with the array denotations used for xarray operations (only with the cell algebra).
"""
from __future__ import annotations

import random

from dv import arr
from dv.arr import Cell, c_add, c_div, c_eq, c_ge, c_gt, c_le, c_lt, c_mul, c_neg, c_pow, c_sub, const_cell
from dv.core import And, Iff, Implies, Not, Or

from contracts.common import MATH, default_of, defined, filled

NUM_INPUTS = ["p_nt", "p_t", "p_nan", "p_inf", "p_ts", "p_scalar"]
STR_INPUTS = ["l_str", "l_strnan"]
BOOL_INPUTS = ["l_bool", "carrier_in", "carrier_out", "definition_matrix"]
RESULTS = ["v_nt", "v_nts", "e_nt"]
CONFIGS = {"backend": "pyomo", "ensure_feasibility": False, "objective": "min_cost_optimisation"}


def gen_arith(r: random.Random, depth, operators=("+", "-", "*", "/", "**"), leaves=None):
    if depth <= 0 or r.random() < 0.45:
        k = r.random()
        if k < 0.25:
            return ("num", r.choice(["1", "2", "0.5", "3", "1e1", "0"]))
        return ("num_in", r.choice(leaves or NUM_INPUTS))
    k = r.random()
    if k < 0.15:
        return ("sign", r.choice("+-"), gen_arith(r, depth - 1, operators, leaves))
    op = r.choice(operators)
    if op == "**":
        return ("arith", gen_arith(r, depth - 1, operators, leaves), [("**", ("num", r.choice(["2", "1", "3"])))])
    if op == "/":
        return ("arith", gen_arith(r, depth - 1, operators, leaves), [("/", ("num", r.choice(["2", "4"])))])
    n = r.choice([1, 1, 2])
    grp = ("*",) if op == "*" else ("+", "-")
    return ("arith", gen_arith(r, depth - 1, operators, leaves),
            [(r.choice(grp), gen_arith(r, depth - 1, operators, leaves)) for _ in range(n)])


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "**": 3}


def _prec(n):
    if n[0] == "arith":
        return PREC[n[2][0][0]]
    if n[0] == "sign":
        return 4
    return 5


def show_arith(n, r=None):
    """Print with only the parentheses the documented precedence needs."""
    k = n[0]
    if k == "num":
        return n[1]
    if k in ("num_in", "ref"):
        return n[1]
    if k == "text":
        return n[1]
    if k == "sign":
        x = show_arith(n[2], r)
        return n[1] + (f"({x})" if _prec(n[2]) < 5 else x)
    p = _prec(n)
    first = show_arith(n[1], r)
    out = f"({first})" if _prec(n[1]) < p else first
    for op, x in n[2]:
        t = show_arith(x, r)
        sp = " " if (r is None or r.random() < 0.7) else ""
        out += f"{sp}{op}{sp}" + (f"({t})" if _prec(x) <= p else t)
    return out


OPS = {"+": c_add, "-": c_sub, "*": c_mul, "/": c_div, "**": c_pow}


def val_arith(n, leaf):
    k = n[0]
    if k == "num":
        return const_cell(float(n[1]))
    if k in ("num_in", "ref", "text"):
        return leaf(n)
    if k == "sign":
        v = val_arith(n[2], leaf)
        return c_neg(arr.num(v)) if n[1] == "-" else v
    v = val_arith(n[1], leaf)
    for op, x in n[2]:
        v = OPS[op](v, val_arith(x, leaf))
    return v


# ------------------------------------------------------------------ conditions

CMP = {"<": c_lt, ">": c_gt, "<=": c_le, ">=": c_ge, "==": c_eq}


def _any(name, over):
    def f(W, env):
        h = W.h
        a = (W.inputs.get(name) if name in W.inputs else W.results[name])
        red = [d for d in over if d in a.dims]

        def rec(todo, e):
            if not todo:
                c = h.cell(a, {d: e[d] for d in a.dims})
                return defined(c) if name in W.inputs else Not(c.null)
            return W.d[todo[0]].exists(lambda i: rec(todo[1:], {**e, todo[0]: i}))

        return rec(red, dict(env))

    o = over[0] if len(over) == 1 else "[" + ", ".join(over) + "]"
    return ("fn", f, {name}, f"any({name}, over={o})")


def _sumcmp(name, over, op, k):
    def f(W, env):
        a = W.inputs[name]
        from contracts.common import parr, sub
        p = parr([W.d[d] for d in a.dims], lambda e: filled(W.h.cell(a, {d: e[d] for d in a.dims}), default_of(name)), "f")
        return CMP[op](p.sum([o for o in over if o in a.dims], min_count=1, skipna=True).at(env), const_cell(float(k))).val

    o = over[0] if len(over) == 1 else "[" + ", ".join(over) + "]"
    return ("fn", f, {name}, f"sum({name}, over={o}){op}{k}")


def _defined(dims, within, how):
    """Membership of listed labels within each member of `within`, over the definition matrix."""
    def f(W, env):
        dm = W.inputs["definition_matrix"]
        rest = [d for d in ("nodes", "techs", "carriers") if d not in dims and d != within]

        def holds(e):
            def rec(todo, e):
                if not todo:
                    return W.h.cell(dm, {d: e[d] for d in dm.dims}).val
                return W.d[todo[0]].exists(lambda i: rec(todo[1:], {**e, todo[0]: i}))
            return rec(rest, e)

        import itertools
        parts = []
        for combo in itertools.product(*dims.values()):
            # the (unique) index of each listed label
            def rec(todo, e):
                if not todo:
                    return holds(e)
                (d, lab), more = todo[0], todo[1:]
                return W.d[d].exists(lambda i: And(c_eq(W.d[d].label(i), const_cell(lab)).val, rec(more, {**e, d: i})))
            parts.append(rec(list(zip(dims, combo)), {within: env[within]}))
        return Or(*parts) if how == "any" else And(*parts)

    a = ", ".join(f"{d}=" + (v[0] if len(v) == 1 else "[" + ", ".join(v) + "]") for d, v in dims.items())
    return ("fn", f, {"definition_matrix"}, f"defined({a}, within={within}, how={how})")


def _tcmp(op, k):
    def f(W, env):
        T = W.d["timesteps"]
        i = (k if k >= 0 else T.nt() + k)
        import z3
        i = z3.IntVal(i) if isinstance(i, int) else z3.simplify(i)
        return CMP[op](T.label(env["timesteps"]), T.label(i)).val
    return ("fn", f, set(), f"timesteps{op}get_val_at_index(timesteps={k})")


def gen_helper_leaf(r):
    k = r.random()
    if k < 0.35:
        n = r.choice(["p_nt", "p_ts", "l_str", "v_nts", "v_nt", "carrier_in", "p_t"])
        return _any(n, r.sample(["nodes", "techs", "timesteps"], r.choice([1, 1, 2])))
    if k < 0.55:
        return _sumcmp(r.choice(["p_nt", "p_t", "p_nan"]), r.sample(["nodes", "techs"], r.choice([1, 2])), r.choice(list(CMP)), r.choice(["0", "2", "1.5"]))
    if k < 0.75:
        d = {"techs": r.sample(["foo", "bar", "t0"], r.choice([1, 2]))}
        if r.random() < 0.4:
            d["carriers"] = r.sample(["c0", "c1"], r.choice([1, 2]))
        return _defined(d, "nodes", r.choice(["any", "all"]))
    if k < 0.9:
        return _tcmp(r.choice(list(CMP)), r.choice([0, 1, -1, -2]))
    return gen_leaf(r)


def gen_where_helpers(r, depth):
    if depth <= 0 or r.random() < 0.2:
        return gen_helper_leaf(r) if r.random() < 0.7 else gen_leaf(r)
    k = r.random()
    if k < 0.3:
        return ("not", gen_where_helpers(r, depth - 1))
    return ("chain", gen_where_helpers(r, depth - 1),
            [(r.choice(["and", "or"]), gen_where_helpers(r, depth - 1)) for _ in range(r.choice([1, 2]))])


def gen_leaf(r: random.Random):
    k = r.random()
    if k < 0.2:
        return ("in", r.choice(NUM_INPUTS + STR_INPUTS + BOOL_INPUTS[:2]))
    if k < 0.28:
        return ("undef", r.choice(["p_undef", "l_undef"]))
    if k < 0.38:
        return ("res", r.choice(RESULTS))
    if k < 0.6:
        return ("cmp", gen_arith(r, r.choice([0, 0, 1, 2]), ("+", "-", "*", "/")), r.choice(list(CMP)),
                ("num", r.choice(["0", "1", "2", "3.5", "-1", "inf", ".inf"])))
    if k < 0.68:
        return ("cmps", r.choice(STR_INPUTS), r.choice(["foo", "bar", "a_b", "p_nt"]))
    if k < 0.72:
        return ("cmpb", r.choice(["l_bool", "carrier_in"]), r.choice(["True", "False", "true", "FALSE"]))
    if k < 0.78:
        c = r.choice(list(CONFIGS))
        v = r.choice({"backend": ["pyomo", "gurobi", "plan"], "ensure_feasibility": ["True", "False", "true"],
                      "objective": ["min_cost_optimisation", "other"]}[c])
        return ("cfg", c, v)
    if k < 0.9:
        d = r.choice(["techs", "nodes"])
        return ("subset", d, r.sample(["foo", "bar", "a_b", "t0", "n1", "t1"], r.choice([1, 2, 3])))
    if k < 0.95:
        return ("dimcmp", r.choice(["techs", "nodes"]), r.choice(["foo", "bar", "t0", "n1"]))
    return ("bool", r.choice(["True", "False", "true", "FALSE"]))


def gen_where(r: random.Random, depth):
    if depth <= 0 or r.random() < 0.2:
        return gen_leaf(r)
    k = r.random()
    if k < 0.3:
        return ("not", gen_where(r, depth - 1))
    n = r.choice([1, 1, 2, 3])
    return ("chain", gen_where(r, depth - 1), [(r.choice(["and", "or"]), gen_where(r, depth - 1)) for _ in range(n)])


def _case(r, w):
    return r.choice([w, w.upper(), w.capitalize()])


def show(n, r):
    k = n[0]
    if k in ("in", "undef", "res", "bool"):
        return n[1]
    if k == "cmp":
        sp = r.choice(["", " "])
        return f"{show_arith(n[1], r)}{sp}{n[2]}{sp}{n[3][1]}"
    if k in ("cmps", "cmpb", "dimcmp"):
        sp = r.choice(["", " "])
        return f"{n[1]}{sp}=={sp}{n[2]}"
    if k == "cfg":
        return f"config.{n[1]}=={n[2]}"
    if k == "subset":
        return "[" + ", ".join(n[2]) + f"] in {n[1]}"
    if k == "fn":
        return n[3]
    if k == "not":
        x = show(n[1], r)
        return _case(r, "not") + " " + (f"({x})" if n[1][0] == "chain" else x)
    out = show(n[1], r)
    if n[1][0] == "chain" and r.random() < 0.6:
        out = f"({out})"
        first = n[1]
    # an unparenthesised leading chain flattens to the same left-to-right meaning
    for op, x in n[2]:
        t = show(x, r)
        out += f" {_case(r, op)} " + (f"({t})" if x[0] == "chain" else t)
    return out


def meaning(n, W, env):
    """Boolean meaning at the index `env`; W: contracts.common.World."""
    k = n[0]
    h = W.h
    if k == "in":
        return defined(h.cell(W.inputs[n[1]], _sub(W.inputs[n[1]], env)))
    if k == "undef":
        return False
    if k == "res":
        return Not(h.cell(W.results[n[1]], _sub(W.results[n[1]], env)).null)
    if k == "bool":
        return n[1].lower() == "true"
    if k == "cmp":
        def leaf(m):
            return filled(h.cell(W.inputs[m[1]], _sub(W.inputs[m[1]], env)), default_of(m[1]))
        v = val_arith(n[1], leaf)
        w = const_cell(float(n[3][1].replace(".inf", "inf")))
        return CMP[n[2]](v, w).val
    if k == "cmps":
        c = filled(h.cell(W.inputs[n[1]], _sub(W.inputs[n[1]], env)), default_of(n[1]))
        return c_eq(c, const_cell(n[2])).val
    if k == "cmpb":
        c = h.cell(W.inputs[n[1]], _sub(W.inputs[n[1]], env))
        return Iff(c.val, n[2].lower() == "true")
    if k == "cfg":
        v = W.config[n[1]]
        return (v is (n[2].lower() == "true")) if isinstance(v, bool) else v == n[2]
    if k == "subset":
        lab = W.d[n[1]].label(env[n[1]])
        return Or(*[c_eq(lab, const_cell(x)).val for x in n[2]])
    if k == "dimcmp":
        return c_eq(W.d[n[1]].label(env[n[1]]), const_cell(n[2])).val
    if k == "fn":
        return n[1](W, env)
    if k == "not":
        return Not(meaning(n[1], W, env))
    v = meaning(n[1], W, env)
    for op, x in n[2]:
        w = meaning(x, W, env)
        v = And(v, w) if op == "and" else Or(v, w)
    return v


def _sub(a, env):
    return {d: env[d] for d in a.dims if d in env}


def used(n, out=None):
    """Names of the arrays mentioned."""
    out = set() if out is None else out
    k = n[0]
    if k in ("in", "res", "cmps", "cmpb"):
        out.add(n[1])
    elif k == "num_in":
        out.add(n[1])
    elif k == "cmp":
        used(n[1], out)
    elif k == "sign":
        used(n[2], out)
    elif k == "arith":
        used(n[1], out)
        for _, x in n[2]:
            used(x, out)
    elif k == "not":
        used(n[1], out)
    elif k == "chain":
        used(n[1], out)
        for _, x in n[2]:
            used(x, out)
    elif k == "fn":
        out.update(n[2])
    return out
