"""Bounded check of the base formulation on whole models: every built component of a random model, as linear forms over
the decision variables, against the specification of contracts/base.py read with the model's inputs."""
import itertools

import numpy as np
import pandas as pd

from . import base, mini
from .base import NSpec, SPEC, compare
from .lin import Lin, Rel, near


def _norm(x):
    if isinstance(x, (np.datetime64, pd.Timestamp)):
        return pd.NaT if pd.isna(x) else pd.Timestamp(x)
    if isinstance(x, np.generic):
        x = x.item()
    return np.nan if x is None else x


def objects(a):
    out = np.empty(a.shape, dtype=object)
    vals = a.values
    if vals.dtype.kind == "M":
        vals = vals.astype("datetime64[ns]")
    for ix in np.ndindex(*a.shape):
        out[ix] = _norm(vals[ix])
    return out


class Real:
    """A built model as the specification sees it."""

    def __init__(self, m):
        self.m, be = m, m.backend
        self.labels = {}
        for d in m.inputs.dims:
            self.labels[d] = [_norm(x) for x in m.inputs[d].values]
        self.ids, arrays = {}, {}
        for n, a in m.inputs.data_vars.items():
            if n in base.ALLNAMES:
                arrays[n] = (list(a.dims), objects(a))
        for n, a in be.variables.items():
            o = objects(a)
            for ix in np.ndindex(*o.shape):
                if not NSpec.null(o[ix]):
                    v = o[ix]
                    self.ids[id(v)] = (n, ix)
                    o[ix] = Lin(0.0, {(n, ix): 1.0})
            arrays[n] = (list(a.dims), o)
        self.keep = []
        for n, a in be.global_expressions.items():
            o = objects(a)
            for ix in np.ndindex(*o.shape):
                if not NSpec.null(o[ix]):
                    o[ix] = self.lin(o[ix])
            arrays[n] = (list(a.dims), o)
        self.arrays = arrays

    def spec(self):
        cfg = self.m.config.build
        return NSpec(self.arrays, self.labels, {"ensure_feasibility": cfg.ensure_feasibility})

    def lin(self, x):
        from pyomo.repn import generate_standard_repn

        if isinstance(x, (int, float, np.number)):
            return Lin(float(x))
        r = generate_standard_repn(getattr(x, "expr", x) if not hasattr(x, "is_variable_type") or not x.is_variable_type() else x, compute_values=True, quadratic=False)
        if r.nonlinear_expr is not None:
            raise TypeError(f"non-linear: {x}")
        t = {}
        for v, c in zip(r.linear_vars, r.linear_coefs):
            k = self.ids[id(v)]
            t[k] = t.get(k, 0.0) + float(c)
        return Lin(float(r.constant), t)

    def rel(self, con):
        body = self.lin(con.body)
        lo, hi = con.lower, con.upper
        lo = None if lo is None else float(lo() if callable(lo) else lo)
        hi = None if hi is None else float(hi() if callable(hi) else hi)
        if lo is not None and hi is not None:
            if not near(lo, hi):
                raise TypeError("a range constraint")
            return Rel("==", body, hi)
        if hi is not None:
            return Rel("<=", body, hi)
        if lo is not None:
            return Rel(">=", body, lo)
        return Rel("<=", 0.0, 1.0)  # no bound: always holds

    def component(self, c):
        be = self.m.backend
        group = {"constraints": be.constraints, "global_expressions": be.global_expressions, "variables": be.variables, "objectives": be.objectives}[c.group]
        if c.name not in group:
            return None
        a = group[c.name]
        if c.group == "global_expressions":
            return self.arrays[c.name]
        o = objects(a)
        for ix in np.ndindex(*o.shape):
            if NSpec.null(o[ix]):
                continue
            if c.group == "variables":
                o[ix] = True
            elif c.group == "constraints":
                o[ix] = self.rel(o[ix])
            else:
                o[ix] = self.lin(o[ix].expr if hasattr(o[ix], "expr") else o[ix])
        return list(a.dims), o


def check(b, m, prop, tag=""):
    r = Real(m)
    S = r.spec()
    for (group, name), c in SPEC.items():
        if c.prop != prop:
            continue
        comp = r.component(c)
        if comp is None:
            b.check(f"{tag}{name} is built", False)
            continue
        compare(c, S, r.labels, *comp, lambda what, ok, n=name: b.check(f"{tag}{n}: {what}", ok))
        if group == "variables":
            _bounds(b, r, S, c, tag)
        if group == "objectives":
            import pyomo.kernel as pmo

            obj = m.backend.objectives[name].values.item()
            b.check(f"{tag}{name} is minimised", obj.sense == pmo.minimize)
            b.check(f"{tag}{name} is the active objective", bool(obj.active))


def _bounds(b, r, S, c, tag):
    lo, hi = c.value
    a = r.m.backend.variables[c.name]
    o = objects(a)
    bad = []
    for ix in np.ndindex(*o.shape):
        if NSpec.null(o[ix]):
            continue
        e = dict(zip(a.dims, ix))
        for want, got, unb in ((lo, o[ix].lb, -np.inf), (hi, o[ix].ub, np.inf)):
            w = S.v(want, e).k if isinstance(want, str) else float(want)
            g = unb if got is None else float(got)
            if not near(w, g):
                bad.append((ix, float(w), g))
    b.check(f"{tag}{c.name}: bounds as declared {bad[:1] or ''}", not bad)


def random_base(b, prop):
    for _ in range(2):
        m, over = mini.random_model(b.rng)
        m.build()
        b.case(sorted((t, sorted(v)) for t, v in over["techs"].items()))
        check(b, m, prop)


def solved(b, m, prop):
    """Recompute every documented relation with the reported values."""
    r = Real(m)
    vals = {}
    for n in r.m.backend.variables:
        if n in m.results:
            a = m.results[n].transpose(*r.arrays[n][0])
            vals[n] = a.values

    def at(x):
        return x.k + sum(c * vals[n][ix] for (n, ix), c in x.t.items())

    S = r.spec()
    for (group, name), c in SPEC.items():
        if c.prop != prop or group == "variables":
            continue
        for combo in itertools.product(*[range(len(r.labels[d])) for d in c.foreach]):
            e = dict(zip(c.foreach, combo))
            if not S.exists(c, e):
                continue
            y = c.value(S, e)
            if group == "constraints":
                if len(y) == 2:
                    y = (y[0], *next(z[1:] for z in y[1] if z[0]))
                d = Lin.of(y[0]) - Lin.of(y[2])
                if d.nan() or not np.isfinite(d.k):
                    continue
                x = at(d)
                tol = 1e-5 * max([1.0, abs(d.k), *[abs(q * vals[n][ix]) for (n, ix), q in d.t.items()]])
                ok = {"==": abs(x) <= tol, "<=": x <= tol, ">=": x >= -tol}[y[1]]
                b.check(f"{name} holds in the reported solution", bool(ok), {"at": {k: str(r.labels[k][i]) for k, i in e.items()}, "left minus right": float(x)})
            elif group == "global_expressions" and name in m.results:
                if Lin.of(y).nan():
                    continue
                a = m.results[name]
                got = float(a.transpose(*[d for d in c.foreach if d in a.dims]).values[tuple(e[d] for d in c.foreach if d in a.dims)])
                b.check(f"{name} reported is the documented sum", near(at(Lin.of(y)), got, 1e-5), {"at": {k: str(r.labels[k][i]) for k, i in e.items()}, "expected": float(at(Lin.of(y))), "found": got})


def register(prop):
    from dv.registry import bounded

    def built_base_model(b):
        """A random model built with the real back end: every component of this property, element by element."""
        random_base(b, prop)

    def solved_base_model(b):
        """A random model solved with cbc: the documented relations recomputed with the reported values."""
        m, over = mini.random_model(b.rng, nt=3)
        m.build()
        m.solve()
        if m.runtime.termination_condition != "optimal":
            b.case("not optimal")
            return
        b.case(sorted((t, sorted(v)) for t, v in over["techs"].items()))
        solved(b, m, prop)

    bounded(prop, targets=["model.Model.build", "pyomo_backend_model.PyomoBackendModel"], trials=8, shards=4, budget_s=150)(built_base_model)
    bounded(prop, targets=["model.Model.solve", "backend_model.BackendModel.load_results"], trials=4, shards=4, budget_s=150)(solved_base_model)
