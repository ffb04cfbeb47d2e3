"""The base formulation: what each of its components has to say, written from the documentation.

The specification (SPEC) is independent of the text in base.yaml: existence condition and relation of every
component as functions of one index.  The contracts in c21..c24 prove, component by component, that the real
definition, parsed and evaluated by the real code over arbitrary inputs, is exactly that."""
from __future__ import annotations

import contextlib
import functools
import itertools
import re
import types
from pathlib import Path

import numpy as np
import pandas as pd
import z3

from dv import arr
from dv.arr import Cell, c_add, c_div, c_ite, c_mul, c_pow, c_sub, const_cell
from dv.core import And, Iff, Implies, Not, Or
from dv.harness import Raised, same

from . import wast
from .common import at, build_config, defined, filled, mods, parr
from .lin import Lin, Rel, same_lin, same_rel, trivial

N, T, C, K, TS = "nodes", "techs", "carriers", "costs", "timesteps"
INF, NAN = float("inf"), float("nan")

# name -> (dims, kind, default, allows infinite).  Documented defaults; widest meaningful dimensions.
PARAMS = {
    "area_use_max": ([N, T], "f", INF, True), "area_use_min": ([N, T], "f", 0, False),
    "area_use_per_flow_cap": ([N, T, C], "f", NAN, False), "available_area": ([N], "f", INF, True),
    "bigM": ([], "f", 1e6, False),
    "cost_flow_cap_per_distance": ([N, T, C, K], "f", 0, False), "cost_flow_cap": ([N, T, C, K], "f", 0, False),
    "cost_export": ([N, T, C, K, TS], "f", 0, False), "cost_interest_rate": ([T, K], "f", 0, False),
    "cost_om_annual": ([N, T, C, K], "f", 0, False), "cost_om_annual_investment_fraction": ([N, T, K], "f", 0, False),
    "cost_flow_in": ([N, T, C, K, TS], "f", 0, False), "cost_source_use": ([N, T, K, TS], "f", 0, False),
    "cost_flow_out": ([N, T, C, K, TS], "f", 0, False), "cost_area_use": ([N, T, K], "f", 0, False),
    "cost_source_cap": ([N, T, K], "f", 0, False), "cost_storage_cap": ([N, T, K], "f", 0, False),
    "cost_depreciation_rate": ([T, K], "f", 1, False), "distance": ([T], "f", 1, False),
    "export_max": ([N, T, C, TS], "f", INF, True), "export_min": ([N, T, C, TS], "f", 0, False),
    "flow_cap_per_storage_cap_min": ([N, T, C], "f", 0, False), "flow_cap_per_storage_cap_max": ([N, T, C], "f", INF, True),
    "flow_cap_max": ([N, T, C], "f", INF, True), "flow_cap_max_systemwide": ([T, C], "f", INF, True),
    "flow_cap_min": ([N, T, C], "f", 0, False), "flow_cap_min_systemwide": ([T, C], "f", 0, False),
    "flow_out_min_relative": ([N, T, C, TS], "f", 0, False), "flow_in_eff": ([N, T, C, TS], "f", 1, False),
    "flow_in_eff_per_distance": ([T, C], "f", 1, False), "flow_out_eff": ([N, T, C, TS], "f", 1, False),
    "flow_out_eff_per_distance": ([T, C], "f", 1, False), "flow_out_parasitic_eff": ([N, T, C, TS], "f", 1, False),
    "flow_ramping": ([N, T, C, TS], "f", 1, False), "lifetime": ([N, T], "f", INF, False),
    "objective_cost_weights": ([K], "f", 1, False),
    "sink_use_min": ([N, T, TS], "f", 0, False), "sink_use_max": ([N, T, C, TS], "f", INF, True),
    "sink_use_equals": ([N, T, C, TS], "f", NAN, False),
    "source_eff": ([N, T, TS], "f", 1, False), "source_use_min": ([N, T, TS], "f", 0, False),
    "source_use_max": ([N, T, TS], "f", INF, True), "source_use_equals": ([N, T, TS], "f", NAN, False),
    "source_cap_max": ([N, T], "f", INF, True), "source_cap_min": ([N, T], "f", 0, False),
    "storage_cap_max": ([N, T], "f", INF, True), "storage_cap_min": ([N, T], "f", 0, False),
    "storage_discharge_depth": ([N, T], "f", 0, False), "storage_initial": ([N, T], "f", 0, False),
    "storage_loss": ([N, T], "f", 0, False), "timestep_resolution": ([TS], "f", 1, False), "timestep_weights": ([TS], "f", 1, False),
}
UNITS = ["absolute", "per_area", "per_cap"]
LOOKUPS = {
    "base_tech": ([T], "U", NAN, ["demand", "supply", "conversion", "storage", "transmission"]),
    "carrier_in": ([N, T, C], "b", False, None), "carrier_out": ([N, T, C], "b", False, None), "carrier_export": ([N, T, C], "b", False, None),
    "cluster_first_timestep": ([TS], "b", False, None), "definition_matrix": ([N, T, C], "b", False, None),
    "include_storage": ([N, T], "b", False, None), "cyclic_storage": ([N, T], "b", True, None),
    "sink_unit": ([N, T], "S", "absolute", UNITS), "source_unit": ([N, T], "S", "absolute", UNITS),
    "source_cap_equals_flow_cap": ([N, T], "b", False, None),
    "lookup_cluster_last_timestep": ([TS], "M", NAN, None),
}
RESULTS = {
    "flow_cap": [N, T, C], "link_flow_cap": [T], "flow_out": [N, T, C, TS], "flow_in": [N, T, C, TS], "flow_export": [N, T, C, TS],
    "area_use": [N, T], "source_use": [N, T, TS], "source_cap": [N, T], "storage_cap": [N, T], "storage": [N, T, TS],
    "unmet_demand": [N, C, TS], "unused_supply": [N, C, TS],
    "flow_out_inc_eff": [N, T, C, TS], "flow_in_inc_eff": [N, T, C, TS], "cost_operation_variable": [N, T, K, TS],
    "cost_investment_flow_cap": [N, T, C, K], "cost_investment_storage_cap": [N, T, K], "cost_investment_source_cap": [N, T, K],
    "cost_investment_area_use": [N, T, K], "cost_investment": [N, T, K], "cost_investment_annualised": [N, T, K],
    "cost_operation_fixed": [N, T, K], "cost": [N, T, K],
}
VARIABLES = list(RESULTS)[:12]
# preconditions of the documented formulas (quotients): efficiencies, durations and lifetimes are positive where given
POSITIVE = {"flow_out_eff", "flow_out_parasitic_eff", "flow_out_eff_per_distance", "timestep_resolution", "lifetime"}
GIVEN = {"lifetime"}  # an annuity by interest rate needs one (missing means infinite)
ALLNAMES = {**PARAMS, **LOOKUPS, **RESULTS}


@functools.lru_cache
def base_math():
    import calliope
    from calliope.io import read_rich_yaml
    from calliope.schemas.math_schema import CalliopeBuildMath

    p = Path(calliope.__file__).parent / "math" / "base.yaml"
    return CalliopeBuildMath.model_validate(read_rich_yaml(p))


def definition(group, name):
    return getattr(base_math(), group).root[name]


def _names_in(x, out):
    if isinstance(x, dict):
        for k, v in x.items():
            _names_in(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            _names_in(v, out)
    elif isinstance(x, str):
        out.update(re.findall(r"[A-Za-z_]\w*", x))
    return out


# ---------------------------------------------------------------- the generic inputs


class BaseWorld:
    """All inputs and results a component can see, each missing entirely (`absent`) or arbitrary."""

    def __init__(self, h, names, absent=(), low=(), steps=None, config=None):
        self.h, self.config = h, dict(config or {})
        ts = [f"2005-01-01 0{i}:00" for i in range(steps)] if steps else None
        if ts:
            ts = [pd.Timestamp(x) for x in ts]
        self.d = {N: h.dim(N), T: h.dim(T), C: h.dim(C), K: h.dim(K),
                  TS: h.dim(TS, kind="M", min=2, labels=ts) if ts else h.dim(TS, kind="M", min=2)}
        d = self.d
        self.inputs, self.results = {}, {}
        for n in sorted(names):
            if n in PARAMS:
                dims, kind, _, inf = PARAMS[n]
                if n in absent:
                    continue
                dims = [x for x in dims if not (n in low and x in (N, C, TS))]
                a = h.array(n, [d[x] for x in dims], kind, null=n not in GIVEN, inf=inf, attrs={"obj_type": "parameters"})
                self.inputs[n] = _positive(h, a) if n in POSITIVE else a
            elif n in LOOKUPS:
                dims, kind, _, values = LOOKUPS[n]
                if n in absent:
                    continue
                if n == "lookup_cluster_last_timestep":
                    if not ts:
                        continue
                    values = ts
                self.inputs[n] = h.array(n, [d[x] for x in dims], kind, values=values, attrs={"obj_type": "lookups"})
                if n == "lookup_cluster_last_timestep" and "cluster_first_timestep" in self.inputs:
                    # precondition: the first step of every cluster knows its last step
                    first = self.inputs["cluster_first_timestep"]
                    if h.mode == "concrete":
                        a = self.inputs[n]
                        self.inputs[n] = a.where(a.notnull() | ~first, np.datetime64(ts[0], "ns"))
                    else:
                        for i in range(len(ts)):
                            e = {TS: z3.IntVal(i)}
                            h.assume(Implies(first.at(e).val, Not(self.inputs[n].at(e).null)))
            elif n in RESULTS:
                if n in absent:
                    continue
                o = "variables" if n in VARIABLES else "global_expressions"
                self.results[n] = h.array(n, [d[x] for x in RESULTS[n]], "O", attrs={"obj_type": o})
        if h.mode == "concrete":
            self.results = {k: wrap(a) for k, a in self.results.items()}
        self.all = {**self.inputs, **self.results}
        self.absent = {}
        for n in sorted(names):
            if n not in self.all and n in ALLNAMES:
                self.absent[n] = n in RESULTS
        self.input_ds = h.dataset(list(self.inputs.values()), list(d.values()))
        self.backend_ds = h.dataset(list(self.all.values()), list(d.values()))
        for n, res in self.absent.items():
            # inputs that were not given at all are one missing value (parameters) or the default (lookups)
            default = LOOKUPS[n][2] if n in LOOKUPS else NAN
            o = "lookups" if n in LOOKUPS else "parameters" if n in PARAMS else ("variables" if n in VARIABLES else "global_expressions")
            a = _scalar(h, n, default, o)
            if not res:
                self.input_ds[n] = a
            self.backend_ds[n] = a

    def unmodified(self):
        return set(self.backend_ds._arrays) >= set(self.all)


def _positive(h, a):
    """The same array with arbitrary positive values."""
    if h.mode == "concrete":
        return a.where(a.isnull() | (a > 0), 1 - a)
    f = lambda c: Cell(c.kind, z3.If(c.val > 0, c.val, 1 - c.val), c.null, c.pinf, c.ninf)
    return a._like(lambda env: f(a.at(env)), attrs=a.attrs)


def _scalar(h, name, value, obj_type):
    if h.mode == "concrete":
        import xarray as xr

        return xr.DataArray(value, name=name, attrs={"obj_type": obj_type})
    return arr.PArr([], lambda env: const_cell(value), const_cell(value).kind, name, {"obj_type": obj_type}, {})


# ---------------------------------------------------------------- values the specification is written with


class V:
    """A number of the specification."""

    def __init__(self, c):
        self.c = c if isinstance(c, Cell) else const_cell(c)

    def _b(self, o, f, rev=False):
        o = o if isinstance(o, V) else V(o)
        return V(f(o.c, self.c) if rev else f(self.c, o.c))

    def __add__(s, o): return s._b(o, c_add)
    def __radd__(s, o): return s._b(o, c_add, True)
    def __sub__(s, o): return s._b(o, c_sub)
    def __rsub__(s, o): return s._b(o, c_sub, True)
    def __mul__(s, o): return s._b(o, c_mul)
    def __rmul__(s, o): return s._b(o, c_mul, True)
    def __truediv__(s, o): return s._b(o, c_div)
    def __rtruediv__(s, o): return s._b(o, c_div, True)
    def __pow__(s, o): return s._b(o, c_pow)
    def __rpow__(s, o): return s._b(o, c_pow, True)


class Spec:
    """Reads the world at one index."""

    And, Or, Not = staticmethod(And), staticmethod(Or), staticmethod(Not)

    def __init__(self, h, W):
        self.h, self.W, self._sums = h, W, {}

    def config(self, name):
        return self.W.config[name]

    def raw(self, name, e):
        a = self.W.all.get(name)
        if a is None:
            return const_cell(LOOKUPS[name][2] if name in LOOKUPS else NAN)
        return at(self.h, a, e)

    def v(self, name, e):
        return V(filled(self.raw(name, e), 0 if name in RESULTS else ALLNAMES[name][2]))

    def has(self, name, e):
        c = self.raw(name, e)
        if name in RESULTS:
            return Not(c.null)
        return defined(c)

    def true(self, name, e):
        return arr.c_truth(self.raw(name, e))

    def is_(self, name, value, e):
        return wast.CMP["=="](filled(self.raw(name, e), LOOKUPS[name][2]), const_cell(value)).val

    def cmp(self, name, op, value, e):
        return wast.CMP[op](self.v(name, e).c, const_cell(value)).val

    def sum(self, key, over, f, e):
        """Sum of f over the dims, skipping nothing (f is never missing unless a side is)."""
        dims = [*[d for d in e if d in self.W.d], *over]
        k = (key, tuple(dims))
        if k not in self._sums:
            self._sums[k] = parr([self.W.d[x] for x in dims], lambda env: f(env).c, "O").sum(over)
        s = self._sums[k]
        return V(s.at({x: e[x] for x in s.dims}))

    def prev(self, e):
        i, n = e[TS], self.W.d[TS].nt()
        return {**e, TS: z3.simplify(z3.If(i == 0, n - 1, i - 1))}

    def first(self, e):
        return e[TS] == 0

    def last(self, e):
        return {**e, TS: z3.simplify(self.W.d[TS].nt() - 1)}

    def lookup(self, f, e, lname):
        """f at the looked-up timestep; missing where there is none."""
        D = self.W.d[TS]
        lab = self.raw(lname, e)
        out = const_cell(NAN)
        for j in range(D.n):
            out = c_ite(And(Not(lab.null), lab.val == D.label(z3.IntVal(j)).val), f({**e, TS: z3.IntVal(j)}).c, out)
        return V(out)

    def cases(self, *pairs):
        """First applicable case (conditions are exclusive where the component exists)."""
        out = V(const_cell(NAN))
        for cond, val in reversed(pairs):
            out = V(c_ite(cond, val.c if isinstance(val, V) else const_cell(val), out.c))
        return out


class NSpec:
    """The same specification over concrete data: decision values are linear forms."""

    And, Or = staticmethod(lambda *a: all(bool(x) for x in a)), staticmethod(lambda *a: any(bool(x) for x in a))
    Not = staticmethod(lambda a: not a)

    def __init__(self, arrays, labels, config=None):
        """arrays: name -> (dims, object ndarray); labels: dim -> list."""
        self.arrays, self.labels, self.cfg = arrays, labels, config or {}

    def config(self, name):
        return self.cfg[name]

    def raw(self, name, e):
        if name not in self.arrays:
            return LOOKUPS[name][2] if name in LOOKUPS else NAN
        dims, a = self.arrays[name]
        return a[tuple(e[d] for d in dims)]

    @staticmethod
    def null(x):
        return x is None or (not isinstance(x, (Lin, str)) and x != x)

    def v(self, name, e):
        x = self.raw(name, e)
        if self.null(x):
            x = 0.0 if name in RESULTS else ALLNAMES[name][2]
        return Lin.of(x)

    def has(self, name, e):
        x = self.raw(name, e)
        if name in RESULTS:
            return not self.null(x)
        return not self.null(x) and (isinstance(x, str) or abs(float(x)) != INF)

    def true(self, name, e):
        x = self.raw(name, e)
        return bool(x) and not self.null(x)

    def is_(self, name, value, e):
        x = self.raw(name, e)
        return (LOOKUPS[name][2] if self.null(x) else x) == value

    def cmp(self, name, op, value, e):
        x = float(self.v(name, e).k)
        return {"<": x < value, ">": x > value, "<=": x <= value, ">=": x >= value, "==": x == value}[op]

    def sum(self, key, over, f, e):
        out = Lin()
        for combo in itertools.product(*[range(len(self.labels[d])) for d in over]):
            y = f({**e, **dict(zip(over, combo))})
            if not self.null(y) and not y.nan():
                out = out + y
        return out

    def prev(self, e):
        return {**e, TS: (e[TS] - 1) % len(self.labels[TS])}

    def first(self, e):
        return e[TS] == 0

    def last(self, e):
        return {**e, TS: len(self.labels[TS]) - 1}

    def lookup(self, f, e, lname):
        x = self.raw(lname, e)
        if self.null(x):
            return Lin(NAN)
        return f({**e, TS: self.labels[TS].index(x)})

    def cases(self, *pairs):
        for cond, val in pairs:
            if cond:
                return Lin.of(val)
        return Lin(NAN)

    def exists(self, c, e):
        rest = [x for x in (N, T, C) if x not in e]
        for combo in itertools.product(*[range(len(self.labels[d])) for d in rest]):
            x = {**e, **dict(zip(rest, combo))}
            if self.raw("definition_matrix", x) and c.exists(self, x):
                return True
        return False


def _objects(a):
    """Object array with missing values as NaN."""
    out = np.empty(a.shape, dtype=object)
    flat = a.values.ravel()
    out.ravel()[:] = list(flat) if a.dtype.kind != "M" else [pd.NaT if x != x else pd.Timestamp(x) for x in flat]
    return out


def wrap(a):
    """Decision array with linear forms as elements."""
    out = a.astype(object).copy()
    vals = out.values
    for ix in np.ndindex(vals.shape):
        if not NSpec.null(vals[ix]):
            vals[ix] = Lin(0.0, {(a.name, ix): 1.0})
    return out


def check_numeric(h, c, W):
    da, got = evaluate(h, W, c.group, c.name)
    if isinstance(da, Raised):
        h.prove(f"builds ({da})", False)
        return
    h.prove("added to the backend", got.get("name") == c.name and got.get("obj_type") == c.group)
    labels = {k: list(D.key) for k, D in W.d.items()}
    S = NSpec({k: (list(a.dims), _objects(a)) for k, a in W.backend_ds.data_vars.items() if k in W.all}, labels, W.config)
    if c.group == "variables":
        _variable(h, c, got)
    compare(c, S, labels, list(da.dims), _objects(da), h.prove)
    if c.group == "objectives":
        h.prove("minimised", got.get("sense", "minimise") == "minimise")


def compare(c, S, labels, dims, vals, prove):
    """Existence and content of a built component against the specification at every index."""
    bad_exist, bad_value, n = [], [], 0
    scalar = not dims and c.foreach
    for combo in itertools.product(*[range(len(labels[d])) for d in c.foreach]):
        e = dict(zip(c.foreach, combo))
        want = S.exists(c, e)
        x = NAN if scalar else vals[tuple(e[d] for d in dims)] if dims else vals.item()
        have = bool(x) if c.group == "variables" and not isinstance(x, Lin) and not NSpec.null(x) else not NSpec.null(x)
        n += 1
        if want != have:
            bad_exist.append({"at": {d: str(labels[d][i]) for d, i in e.items()}, "expected": want, "found": have})
            continue
        if not want or c.group == "variables":
            continue
        y = c.value(S, e)
        if c.group == "constraints":
            if len(y) == 2:
                y = (y[0], *next(z[1:] for z in y[1] if z[0]))
            y = Rel(y[1], y[0], y[2])
            if isinstance(x, Rel):
                ok = same_rel(x, y)
            else:
                t = trivial(y.op, (y.a - y.b).k) if not (y.a - y.b).clean() else None
                ok = None if t is None or abs((y.a - y.b).k) < 1e-7 else bool(x) == t
        else:
            ok = None if y.nan() else same_lin(x, y)
        if ok is False:
            bad_value.append({"at": {d: str(labels[d][i]) for d, i in e.items()}, "expected": repr(y)[:300], "found": repr(x)[:300]})
    prove(f"exists exactly where declared {bad_exist[:1] or ''}", not bad_exist)
    prove(f"states the documented relation {bad_value[:1] or ''}", not bad_value)
    return n


# ---------------------------------------------------------------- evaluating the real definition


def evaluate(h, W, group, name):
    """The real add_* method on the real definition; returns (component array, extra captured)."""
    from calliope.backend import backend_model, pyomo_backend_model

    B = backend_model.BackendModelGenerator
    me = types.SimpleNamespace(inputs=W.input_ds, math=base_math(), config=build_config(**W.config), _dataset=W.backend_ds)
    me.VARIABLE_DOMAIN_DICT = {"real": "real", "integer": "integer", "binary": "binary"}
    me.OBJECTIVE_SENSE_DICT = {"minimise": "minimise", "minimize": "minimise", "maximise": "maximise", "maximize": "maximise"}
    got = {}
    me.log = lambda *a, **k: None
    me._raise_error_on_preexistence = lambda *a, **k: None
    me._raise_idx_overlap_error = lambda *a: B._raise_idx_overlap_error(me, *a)
    me._eval_top_level_where = lambda *a, **k: B._eval_top_level_where(me, *a, **k)
    me._eval_equations = lambda *a, **k: B._eval_equations(me, *a, **k)
    fill = lambda nm, where, expr: pyomo_backend_model.PyomoBackendModel._add_global_expression(me, nm, where, expr)
    me._add_global_expression = fill
    me._add_constraint = lambda nm, where, expr: expr.broadcast_like(where).where(where)

    def add_objective(nm, where, expr, sense):
        got["sense"] = sense
        return fill(nm, where, expr)

    me._add_objective = add_objective

    def add_variable(nm, where, refs, domain, bounds):
        got.update(domain=domain, bounds=bounds)
        return where

    me._add_variable = add_variable

    def add(nm, da, obj_type, *a, **k):
        got.update(name=nm, da=da, obj_type=obj_type)

    me._add_to_dataset = add
    with h.patch(*mods(), backend_model, pyomo_backend_model), _reference_contract(h):
        r = h.call(getattr(B, "add_" + group.removesuffix("s")), me, name, definition(group, name))
    if isinstance(r, Raised):
        return r, got
    return got.get("da"), got


def _reference_contract(h):
    """Bare names are taken by contract (proved in C09, component_reference): the component's array, missing entries
    replaced by the declared default."""
    from calliope.backend import expression_parser as ep

    if h.mode == "concrete" or not hasattr(getattr(ep, "EvalUnslicedComponent", None), "as_array"):
        return contextlib.nullcontext()

    def as_array(self):
        a = self.eval_attrs.backend_data[self.name]
        self.eval_attrs.references.add(self.name)
        default = self.eval_attrs.math.find(self.name)["default"]
        return a.fillna(default) if pd.notna(default) else a

    h.trust("EvalUnslicedComponent.as_array: by its contract, proved in C09 component_reference")
    return h.stub((ep.EvalUnslicedComponent, "as_array", as_array))


def over_rest(W, e, f, used):
    """Exists over the remaining dimensions `used`."""
    rest = [x for x in used if x not in e]

    def rec(todo, env):
        if not todo:
            return f(env)
        D = W.d[todo[0]]
        return D.exists(lambda i: rec(todo[1:], {**env, D.name: i}))

    return rec(rest, dict(e))


SPEC: dict[tuple, "Comp"] = {}


class Comp:
    def __init__(self, prop, group, name, foreach, exists, value, uses, variants, extra):
        self.prop, self.group, self.name, self.foreach = prop, group, name, foreach
        self.exists, self.value, self.uses, self.variants, self.extra = exists, value, uses, variants, extra

    def rest(self):
        return [N, T, C]


def comp(prop, group, name, foreach, exists, value, uses, variants=({},), **extra):
    SPEC[group, name] = Comp(prop, group, name, foreach, exists, value, uses.split(), list(variants), extra)


def check_component(h, c: Comp, variant: dict):
    names = set(c.uses) | {"definition_matrix"}
    names |= {n for n in _names_in(definition(c.group, c.name).model_dump(), set()) if n in ALLNAMES}
    names -= {c.name}
    cfg = {}
    if "config" in c.uses:
        cfg = {"ensure_feasibility": h.choose("ensure_feasibility", [True, False])}
        names.discard("config")
    W = BaseWorld(h, names, absent=variant.get("absent", "").split(), low=variant.get("low", "").split(), steps=variant.get("steps"), config=cfg)
    d = definition(c.group, c.name)
    h.prove("active", bool(d.active))
    if h.mode == "concrete":
        check_numeric(h, c, W)
        return
    da, got = evaluate(h, W, c.group, c.name)
    S = Spec(h, W)
    dm = W.inputs["definition_matrix"]
    inside = lambda e: And(over_rest(W, e, lambda x: And(at(h, dm, x).val, c.exists(S, x)), [N, T, C]))
    if isinstance(da, Raised):
        h.prove(f"builds ({da})", False)
        return
    h.prove("added to the backend", got.get("name") == c.name and got.get("obj_type") == c.group)
    g = h.spec(da)
    D = [W.d[x] for x in c.foreach]
    everywhere = lambda f: h.forall(D, f)
    if set(g.dims) != set(c.foreach):
        h.prove(f"a dimensionless empty result only where nothing exists {list(g.dims)}",
                everywhere(lambda e: And(len(g.dims) == 0, _absent(c, at(h, g, e)), Not(inside(e)))))
        return
    if c.group == "variables":
        h.prove("exists exactly where declared", everywhere(lambda e: Iff(arr.c_truth(at(h, g, e)), inside(e))))
        _variable(h, c, got)
        return
    h.prove("exists exactly where declared", everywhere(lambda e: Iff(Not(at(h, g, e).null), inside(e))))
    h.prove("states the documented relation", everywhere(lambda e: _value(h, S, c, c.value, g, e, inside)))
    if c.group == "objectives":
        h.prove("minimised", got.get("sense", "minimise") == "minimise")
    h.prove("inputs unmodified", W.unmodified())


def _absent(c, cell):
    return Or(cell.null, Not(arr.c_truth(cell))) if c.group == "variables" else cell.null


def _variable(h, c, got):
    lo, hi = c.value
    b = got.get("bounds")
    if b is None:
        return  # nothing built
    h.prove(f"bounds {lo}..{hi}", b.min == lo and b.max == hi)
    h.prove("continuous", got["domain"] == c.extra.get("domain", "real"))
    if isinstance(lo, str) or isinstance(hi, str):
        P = base_math().parameters.root
        for x in (lo, hi):
            if isinstance(x, str):
                h.prove(f"default of {x}", P[x].default == PARAMS[x][2])


def _value(h, S, c, value, g, e, inside):
    cell = at(h, g, e)
    want = value(S, e)
    if c.group == "constraints":
        if len(want) == 2:
            out, taken = [], False
            for cond, op, rhs in want[1]:
                out.append(Implies(And(cond, Not(taken)), _rel_ok(h, cell, inside(e), want[0], op, rhs)))
                taken = Or(taken, cond)
            return And(*out)
        return _rel_ok(h, cell, inside(e), *want)
    return Implies(And(inside(e), Not(want.c.null)), same(Cell(cell.kind, cell.val, cell.null, cell.pinf, cell.ninf), want.c))


def _rel_ok(h, cell, there, lhs, op, rhs):
    lhs, rhs = (x if isinstance(x, V) else V(x) for x in (lhs, rhs))
    ok = And(Not(lhs.c.null), Not(rhs.c.null))
    return Implies(And(there, ok), Iff(cell.val if cell.kind in "CbB" else arr.c_truth(cell), relation(h, lhs.c, op, rhs.c)))


def relation(h, a, op, b):
    return wast.CMP[op](a, b).val


def register(prop):
    from dv.registry import contract

    for (group, name), c in list(SPEC.items()):
        if c.prop != prop:
            continue

        for i, variant in enumerate(c.variants):
            def mk(c=c, variant=variant):
                return lambda h: check_component(h, c, variant)

            fn = mk()
            fn.__name__ = f"{c.group}_{c.name}" + (f"_{i}" if i else "")
            what = "; ".join(f"{k}: {v}" for k, v in variant.items()) or "all inputs arbitrary"
            fn.__doc__ = f"`{c.name}` exists exactly where declared and states the documented relation ({what})."
            contract(prop, targets=[f"math/base.yaml:{group}.{name}", f"backend_model.BackendModelGenerator.add_{group.removesuffix('s')}",
                                    "backend_model.BackendModelGenerator._eval_equations"], trials=c.extra.get("trials", 24 if i == 0 else 10),
                     budget_s=c.extra.get("budget", 100), timeout_ms=20000)(fn)
