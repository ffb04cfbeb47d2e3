"""C10: math helper functions compute what they document."""
import itertools

import z3

from dv import arr
from dv.arr import c_ite, const_cell
from dv.core import And, B, Iff, Implies, Not, Or
from dv.harness import Raised, same
from dv.registry import contract

from contracts.common import World, at, build_config, mkmath, mods, parr

LAB = {"techs": ["foo", "bar", "t0"], "nodes": ["n0", "n1"], "carriers": ["c0", "c1"]}


def helper(h, W, name, kind):
    from calliope.backend import helper_functions as hf

    return hf._registry[kind][name]("array", W.attrs(helpers=kind))


def dimarr(h, W, name):
    return W.input_ds[name]


def over_arg(h, W, names, how):
    """`over` as the parser may pass it: strings or dimension arrays, single or list."""
    vals = [n if (how == "str" or n not in W.input_ds.dims) else dimarr(h, W, n) for n in names]
    return vals[0] if len(vals) == 1 and how != "list" else vals


def check(h, label, got, want, dims, under=None):
    """got (array or Raised) equals want(env) over exactly the dimensions `dims`."""
    if isinstance(got, Raised):
        h.prove(f"{label}: does not raise ({got.type}: {str(got.exc)[:80]})", False)
        return
    s = h.spec(got)
    h.prove(f"{label}: dimensions", set(s._d) == {d.name for d in dims})
    if set(s._d) != {d.name for d in dims}:
        return
    h.prove(f"{label}: value", h.forall(dims, lambda env: same(s.at(env), want(env))))


def sum_of(h, a, over, cond=None):
    """Mathematical sum of an array over dimensions: missing entries skipped, missing when all are."""
    s = h.spec(a)
    if cond is not None:
        s0, c0 = s, h.spec(cond)
        ds = list(dict.fromkeys([*s0._d, *c0._d]))
        dm = {**c0._dm, **s0._dm}
        s = arr.PArr(ds, lambda env: c_ite(c0.at({k: env[k] for k in c0._d}).val, s0.at({k: env[k] for k in s0._d}), const_cell(float("nan"))),
                     s0._kind, None, {}, dm)
    return s.sum([d for d in over if d in s._d], min_count=1)


@contract("C10", targets=["helper_functions.WhereAny.as_array"], trials=60)
def any_over(h):
    """`any` is the disjunction over exactly the requested dimensions the array has; non-Boolean input is an error."""
    W = World(h, which=["p_t"])
    d = W.d
    shape = h.choose("dims", [["techs"], ["nodes", "techs"], ["nodes", "techs", "carriers"], []])
    a = h.array("a", [d[x] for x in shape], h.choose("kind", ["b", "f"]))
    over = h.choose("over", [["techs"], ["nodes"], ["nodes", "techs"], ["carriers", "timesteps"], ["carriers", "nodes", "techs"]])
    with h.patch(*mods()):
        got = h.call(lambda: helper(h, W, "any", "where")(a, over=over_arg(h, W, over, h.choose("as", ["str", "list", "arr"]))))
    if a.dtype.kind != "b":
        from calliope.exceptions import BackendError
        h.prove("non-Boolean is an error", isinstance(got, Raised) and got.isa(BackendError))
        return
    gone = [d[x] for x in shape if x in over]

    def want(env):
        def rec(todo, e):
            return at(h, a, e).val if not todo else todo[0].exists(lambda i: rec(todo[1:], {**e, todo[0].name: i}))
        return arr.Cell("b", rec(gone, env))

    check(h, "any", got, want, [d[x] for x in shape if x not in over])


@contract("C10", targets=["helper_functions.Defined.as_array", "helper_functions.Defined._dims_to_remove"], trials=80)
def defined_within(h):
    """`defined(dim=[labels], within=d, how)`: for each member of d, all/any of the labels is defined with it."""
    W = World(h, which=["definition_matrix"], labels=LAB)
    d = W.d
    within, sel = h.choose("query", [
        ("nodes", {"techs": ["foo", "bar"]}), ("nodes", {"techs": ["t0"]}), ("techs", {"nodes": ["n0", "n1"]}),
        ("nodes", {"techs": ["foo", "t0"], "carriers": ["c1"]}), ("carriers", {"techs": ["bar", "t0"], "nodes": ["n1"]}),
        ("techs", {"carriers": ["c0", "c1"]}), ("techs", {"timesteps": ["c0"]}), ("timesteps", {"techs": ["foo"]}),
        ("nodes", {"techs": "foo"}),
    ])
    how = h.choose("how", ["all", "any"])
    with h.patch(*mods()):
        kw = {k: ([const_or_str(h, x) for x in v] if isinstance(v, list) else v) for k, v in sel.items()}
        got = h.call(lambda: helper(h, W, "defined", "where")(within=dimarr(h, W, within), how=how, **kw))
    if "timesteps" in sel or within == "timesteps":
        h.prove("only definition-matrix dimensions are allowed", isinstance(got, Raised) and got.isa(ValueError))
        return
    dm = W.all["definition_matrix"]
    free = [x for x in ("nodes", "techs", "carriers") if x != within and x not in sel]

    def want(env):
        out = []
        labs = [v if isinstance(v, list) else [v] for v in sel.values()]
        for combo in itertools.product(*labs):
            e = {**env, **{k: z3.IntVal(LAB[k].index(x)) for k, x in zip(sel, combo)}}

            def rec(todo, e):
                return at(h, dm, e).val if not todo else d[todo[0]].exists(lambda i: rec(todo[1:], {**e, todo[0]: i}))
            out.append(rec(free, e))
        return arr.Cell("b", And(*out) if how == "all" else Or(*out))

    check(h, "defined", got, want, [d[within]])


def const_or_str(h, x):
    return x


@contract("C10", targets=["helper_functions.Sum.as_array", "helper_functions.ParsingHelperFunction._to_str_list",
                          "helper_functions.ParsingHelperFunction.__call__"], trials=80)
def sum_over(h):
    """`sum` adds the present entries over exactly the requested dimensions; all-missing stays missing."""
    W = World(h, which=["p_t"])
    d = W.d
    shape = h.choose("dims", [["techs"], ["nodes", "techs"], ["timesteps", "nodes", "techs"]])
    a = h.array("a", [d[x] for x in shape], h.choose("kind", ["O", "f"]))
    over = h.choose("over", [["techs"], ["nodes"], ["nodes", "techs"], ["carriers"], ["carriers", "timesteps"]])
    with h.patch(*mods()):
        got = h.call(lambda: helper(h, W, "sum", h.choose("in", ["expression", "where"]))(a, over=over_arg(h, W, over, h.choose("as", ["str", "list", "arr"]))))
    ref = sum_of(h, a, over)
    check(h, "sum", got, lambda env: ref.at(env), [d[x] for x in shape if x not in over])


@contract("C10", targets=["helper_functions.ReduceCarrierDim.as_array"], trials=60)
def reduce_carriers(h):
    """Only carriers that the technology has in that direction are summed; the carrier dimension goes."""
    W = World(h, which=["carrier_in", "carrier_out"])
    d = W.d
    shape = h.choose("dims", [["nodes", "techs", "carriers"], ["nodes", "techs", "carriers", "timesteps"], ["carriers"]])
    way = h.choose("way", ["in", "out"])
    a = h.array("a", [d[x] for x in shape], "O")
    with h.patch(*mods()):
        got = h.call(lambda: helper(h, W, "reduce_carrier_dim", "expression")(a, way))
    ref = sum_of(h, a, ["carriers"], W.all[f"carrier_{way}"])
    check(h, "reduced", got, lambda env: ref.at(env), [d[x] for x in dict.fromkeys([*shape, "nodes", "techs"]) if x != "carriers"])


@contract("C10", targets=["helper_functions.SelectFromLookupArrays.as_array"], trials=80, budget_s=150)
def lookup_select(h):
    """At every index the value at the looked-up label(s); missing lookups give missing values."""
    W = World(h, which=["p_t"], labels=LAB)
    d = W.d
    two = h.choose("two", [False, True])
    kind = h.choose("kind", ["f", "O"])
    extra = h.choose("extra", [[], ["timesteps"]])
    dims = ["techs", "nodes"] if two else ["techs"]
    a = h.array("a", [d[x] for x in [*extra, *dims]], kind)
    lk = {}
    for x in dims:
        lk[x] = h.array("look_" + x, [d[y] for y in dims], "S", values=LAB[x])
        W.input_ds["look_" + x] = lk[x]
    bad = h.choose("bad", [None, None, "dim", "lookup dims"])
    kw = {x: W.input_ds["look_" + x] for x in dims}
    if bad == "dim":
        kw = {"carriers": next(iter(kw.values()))}
    elif bad == "lookup dims":
        o = h.array("other", [d["nodes"]], "S", values=LAB["techs"])
        W.input_ds["other"] = o
        kw["techs"] = W.input_ds["other"]
    with h.patch(*mods()):
        got = h.call(lambda: helper(h, W, "select_from_lookup_arrays", "expression")(a, **kw))
    if bad:
        from calliope.exceptions import BackendError
        h.prove("wrong dimensions are an error", isinstance(got, Raised) and got.isa(BackendError))
        return
    none = Or(*[And(*[at(h, lk[x], dict(zip(dims, map(z3.IntVal, c)))).null for c in itertools.product(*[range(len(LAB[y])) for y in dims])]) for x in dims])
    if isinstance(got, Raised):
        h.prove(f"raises only when a lookup has no match at all ({got})", And(got.isa(IndexError), none))
        return
    h.prove("a lookup with no match at all is an error", Not(none))

    def want(env):
        e = dict(env)
        null = []
        for x in dims:
            lab = at(h, lk[x], env)
            null.append(lab.null)
            ix = z3.IntVal(0)
            for j, l in enumerate(LAB[x]):
                ix = z3.If(lab.val == const_cell(l).val, z3.IntVal(j), ix)
            e[x] = z3.simplify(ix)
        v = pick(h, a, e, dims)
        return c_ite(Or(*null), const_cell(float("nan")), v)

    check(h, "selected", got, want, [d[x] for x in [*extra, *dims]])


def pick(h, a, e, dims):
    """Cell of `a` at possibly symbolic positions of concrete dimensions."""
    out = None
    for c in itertools.product(*[range(len(LAB[x])) for x in dims]):
        v = at(h, a, {**e, **dict(zip(dims, map(z3.IntVal, c)))})
        cond = And(*[e[x] == j for x, j in zip(dims, c)])
        out = v if out is None else c_ite(z3.simplify(cond), v, out)
    return out


@contract("C10", targets=["helper_functions.GetValAtIndex.as_array", "helper_functions.GetValAtIndex._mapping_to_dim_idx"], trials=40)
def val_at_index(h):
    """The label at the given position; negative positions count from the end."""
    W = World(h, which=["p_t"], mint=3)
    D = W.d["timesteps"]
    i = h.choose("i", [0, 1, 2, -1, -2, -3])
    more = h.choose("two mappings", [False, True])
    with h.patch(*mods()):
        kw = {"timesteps": i, **({"techs": 0} if more else {})}
        got = h.call(lambda: helper(h, W, "get_val_at_index", h.choose("in", ["expression", "where"]))(**kw))
    if more:
        h.prove("one mapping only", isinstance(got, Raised) and got.isa(ValueError))
        return
    check(h, "label", got, lambda env: D.label(z3.simplify(z3.IntVal(i) if i >= 0 else D.nt() + i)), [])


@contract("C10", targets=["helper_functions.Roll.as_array", "helper_functions.Roll.ignore_where"], trials=60)
def rolled(h):
    """Entry i becomes entry i-n, cyclically; labels stay."""
    W = World(h, which=["p_t"], mint=2)
    d = W.d
    a = h.array("a", [d["techs"], d["timesteps"]], h.choose("kind", ["O", "f", "b"]))
    n = h.choose("n", [1, -1, 2])
    with h.patch(*mods()):
        hp = helper(h, W, "roll", "expression")
        got = h.call(lambda: hp(a, timesteps=n))
    h.prove("operands are not masked by where", hp.ignore_where is True)
    N = d["timesteps"].nt()

    def want(env):
        i = env["timesteps"]
        j = z3.simplify((i - n) % N) if d["timesteps"].concrete else z3.If(And(i - n >= 0, i - n < N), i - n, (i - n) % N)
        return at(h, a, {**env, "timesteps": j})

    check(h, "rolled", got, want, [d["techs"], d["timesteps"]])


@contract("C10", targets=["helper_functions.Where.as_array"], trials=80)
def conditional(h):
    """The array where the condition is true (present and non-zero), missing elsewhere; broadcast over new dimensions."""
    W = World(h, which=["p_t"])
    d = W.d
    a = h.array("a", [d["nodes"], d["techs"]], h.choose("kind", ["O", "f"]))
    c = h.array("c", [d[x] for x in h.choose("cdims", [["techs"], ["techs", "carriers"], []])], h.choose("ckind", ["b", "f", "B"]))
    with h.patch(*mods()):
        got = h.call(lambda: helper(h, W, "where", "expression")(a, c))

    def want(env):
        cc = at(h, c, env)
        t = cc.val if cc.kind in "bB" else Not(cc.val == 0)
        return c_ite(And(Not(cc.null), t), at(h, a, env), const_cell(float("nan")))

    check(h, "masked", got, want, [d[x] for x in dict.fromkeys([*a.dims, *c.dims])])


@contract("C10", targets=["helper_functions.GroupSum.as_array"], trials=80, budget_s=150)
def grouped(h):
    """Every present entry is counted in exactly its own group; groups without members do not appear."""
    W = World(h, which=["p_t"])
    d = W.d
    gd = h.choose("group dims", [["techs"], ["nodes", "techs"]])
    extra = h.choose("extra", [[], ["timesteps"]])
    voc = ["g0", "g1"]
    a = h.array("a", [d[x] for x in [*extra, *gd]], h.choose("kind", ["O", "f"]))
    g = h.array("by", [d[x] for x in gd], "S", values=voc)
    with h.patch(*mods()):
        lab = label_array(h, "groups")
        got = h.call(lambda: helper(h, W, "group_sum", "expression")(a, g, lab))

    def member(v):
        gs = h.spec(g)
        return arr.PArr(gs._d, lambda env: arr.Cell("b", And(Not(gs.at(env).null), gs.at(env).val == const_cell(v).val)), "b", None, {}, gs._dm)

    def present(v):
        m = member(v)
        def rec(todo, e):
            return m.at(e).val if not todo else d[todo[0]].exists(lambda i: rec(todo[1:], {**e, todo[0]: i}))
        return rec(gd, {})

    if isinstance(got, Raised):
        h.prove(f"raises only without any group ({got})", Not(Or(*[present(v) for v in voc])))
        return
    s = h.spec(got)
    h.prove("dimensions", set(s._d) == {"groups", *extra})
    D = s._dm["groups"]
    labs = [arr.cell_value(D.label(z3.IntVal(k))) for k in range(D.n)]
    h.prove("group labels", And(len(set(labs)) == len(labs), *[Iff(present(v), v in labs) for v in voc]))
    for k, l in enumerate(labs):
        ref = sum_of(h, a, gd, member(l))
        h.prove("group total", h.forall([d[x] for x in extra], lambda env: same(s.at({**env, "groups": z3.IntVal(k)}), ref.at(env))))


def label_array(h, name):
    import xarray as xr

    a = xr.DataArray(name, name=name)
    return a if h.mode == "concrete" else arr.const(name, name=name)


STAMPS = ["2005-01-30 00:00", "2005-01-30 12:00", "2005-01-31 00:00", "2005-02-01 00:00", "2006-01-30 00:00"]


@contract("C10", targets=["helper_functions.GroupDatetime.as_array"], trials=60)
def grouped_by_date(h):
    """Sums over calendar groups: each timestep is counted in the group its timestamp belongs to."""
    import pandas as pd
    from contracts.common import MATH
    from calliope.schemas.math_schema import CalliopeBuildMath

    how, dt = h.choose("group", [("month", "integer"), ("date", "string"), ("year", "integer"), ("hour", "float")])
    n = h.choose("steps", [1, 2, 3, 5])
    T = h.dim("timesteps", kind="M", labels=[pd.Timestamp(x) for x in STAMPS[:n]])
    N = h.dim("nodes")
    a = h.array("a", [N, T], h.choose("kind", ["O", "f"]))
    m = CalliopeBuildMath.model_validate({**MATH, "dimensions": {**MATH["dimensions"], how: {"dtype": dt, "iterator": how + "_"}}})
    from calliope.backend import helper_functions as hf
    from calliope.backend.eval_attrs import EvalAttrs
    ds = h.dataset([a], [T, N])
    with h.patch(*mods()):
        at_ = EvalAttrs(input_data=ds, backend_data=ds, math=m, equation_name="e", helper_functions=hf._registry["expression"], build_config=build_config())
        got = h.call(lambda: hf._registry["expression"]["group_datetime"]("array", at_)(a, ds["timesteps"], label_array(h, how)))
    if isinstance(got, Raised):
        h.prove(f"does not raise ({got})", False)
        return
    key = [{"month": t.month, "date": str(t.date()), "year": t.year, "hour": float(t.hour)}[how] for t in map(pd.Timestamp, STAMPS[:n])]
    s = h.spec(got)
    h.prove("dimensions", set(s._d) == {"nodes", how})
    D = s._dm[how]
    labs = [arr.cell_value(D.label(z3.IntVal(k))) for k in range(D.n)]
    labs = [int(x) if how in ("month", "year") else float(x) if how == "hour" else x for x in labs]
    h.prove("group labels", sorted(labs) == sorted(set(key)))
    for k, l in enumerate(labs):
        mem = arr.PArr(("timesteps",), lambda env: arr.Cell("b", Or(*[env["timesteps"] == j for j, x in enumerate(key) if x == l])), "b", None, {}, {"timesteps": T})
        ref = sum_of(h, a, ["timesteps"], mem)
        h.prove("group total", h.forall([N], lambda env: same(s.at({**env, how: z3.IntVal(k)}), ref.at(env))))


@contract("C10", targets=["helper_functions.SumNextN.as_array"], trials=60)
def rolling_sum(h):
    """Sum of the current and the following entries, N in total, not wrapping at the end."""
    T = h.choose("T", [1, 2, 3, 5])
    W = World(h, which=["p_t"])
    import pandas as pd
    D = h.dim("timesteps", kind="M", labels=[pd.Timestamp("2005-01-01") + pd.Timedelta(hours=i) for i in range(T)])
    d = W.d
    n = h.choose("N", [1, 2, 3, 7])
    first = h.choose("time first", [True, False])
    dims = [D, d["techs"]] if first else [d["techs"], D]
    a = h.array("a", dims, h.choose("kind", ["O", "f"]))
    ds = h.dataset([a], [D, d["techs"]])
    with h.patch(*mods()):
        got = h.call(lambda: helper(h, W, "sum_next_n", "expression")(a, ds["timesteps"], n))
    if isinstance(got, Raised):
        h.prove(f"does not raise ({got})", False)
        return
    s = h.spec(got)
    h.prove("dimensions", set(s._d) == {"timesteps", "techs"} and s._dm["timesteps"].n == T)
    for t in range(T):
        def f(env):
            cells = [at(h, a, {**env, "timesteps": z3.IntVal(j)}) for j in range(t, min(T, t + n))]
            want = arr._sum_cells([arr.num(c) for c in cells], "f", 1, None)
            return same(s.at({**env, "timesteps": z3.IntVal(t)}), want)
        h.prove(f"window at {t}", h.forall([d["techs"]], f))


@contract("C10", targets=["helper_functions.ParsingHelperFunction.__init_subclass__"], trials=10)
def registration(h):
    """Every helper is registered under its name in exactly the string kinds it is allowed in; names are unique."""
    from calliope.backend import helper_functions as hf

    h.choose("x", [0])
    for cls in hf.ParsingHelperFunction.__subclasses__():
        if not cls.__module__.startswith("calliope"):
            continue
        for k in ("where", "expression"):
            h.prove(f"{cls.NAME} in {k}", (hf._registry[k].get(cls.NAME) is cls) == (k in cls.ALLOWED_IN))

    def dup():
        class Again(hf.ParsingHelperFunction):
            NAME = "sum"
            ALLOWED_IN = ["expression"]

            def as_math_string(self): ...
            def as_array(self): ...
    before = dict(hf._registry["expression"])
    got = h.call(dup)
    same_reg = hf._registry["expression"] == before
    hf._registry["expression"].clear()
    hf._registry["expression"].update(before)
    h.prove("a name cannot be taken twice", isinstance(got, Raised) and got.isa(ValueError) and same_reg)
