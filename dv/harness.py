"""Contract harness: one contract text, three interpretations.

  proof     inputs are symbolic (dimension lengths unbounded); obligations go to z3.
  search    as proof, but with small concrete dimension lengths, to get finite
            counter-models of refuted obligations.
  concrete  inputs are real xarray objects (from a counter-model or a seeded random
            source), nothing is patched: the real code with the real libraries runs and
            every obligation is evaluated.  Used to replay counter-models and as the
            run-time (bounded) check of the same contract.
"""
from __future__ import annotations

import contextlib
import itertools
import json
import math
import random
import traceback

import numpy as np
import pandas as pd
import xarray as xr
import z3

from . import arr, core
from .arr import Cell, Dim, PArr, const_cell
from .core import And, B, Cut, Engine, Iff, Implies, Not, Or, R, SBool, SInt, SReal, Unsupported

TOL = 1e-9


class Raised:
    """Outcome of a call that raised."""

    def __init__(self, exc):
        self.exc = exc
        self.type = type(exc).__name__

    def isa(self, *types):
        return isinstance(self.exc, types)

    def __repr__(self):
        return f"<raised {self.type}: {self.exc}>"


class Mismatch(Exception):
    pass


class NotCallable(Exception):
    """The contract's target could not be called as the contract expects."""


def _in_calliope(e):
    tb = traceback.extract_tb(e.__traceback__)
    return any("/calliope/" in f.filename for f in tb)


def _innermost_dv(e):
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and "/dv/" in tb[-1].filename


def _cval(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return t.as_fraction()
    if z3.is_int_value(t):
        return t.as_long()
    return None


def same(a: Cell, b: Cell):
    """The two cells denote the same (possibly missing or infinite) value."""
    if a.kind == "C" or b.kind == "C":
        return And(Iff(a.null, b.null), Or(a.null, Iff(a.val, b.val)))
    if a.kind in "bB" and b.kind in "bB":
        return And(Iff(a.null, b.null), Or(a.null, Iff(a.val, b.val)))
    if a.kind in "USM" or b.kind in "USM":
        if a.val.sort() != b.val.sort():
            return And(a.null, b.null)
        return And(Iff(a.null, b.null), Or(a.null, a.val == b.val))
    a, b = arr.num(a), arr.num(b)
    return And(
        Iff(a.null, b.null),
        Or(a.null, And(Iff(a.pinf, b.pinf), Iff(a.ninf, b.ninf), Or(arr._inf(a), eqv(a.val, b.val)))),
    )


def eqv(x, y):
    """Numeric equality (with float tolerance when both sides are constants)."""
    if not core.CUR or not getattr(core.CUR, "concrete", False):
        return x == y
    vx, vy = _cval(x), _cval(y)
    if vx is None or vy is None:
        return x == y
    return z3.BoolVal(abs(float(vx) - float(vy)) <= TOL * max(1.0, abs(float(vx)), abs(float(vy))))


class H:
    """Harness base; mode in {'proof','search','concrete'}."""

    mode = "?"

    def __init__(self, eng: Engine):
        self.eng = eng
        self.symbols = {}

    # -- obligations
    def prove(self, label, goal):
        return self.eng.prove(label, goal)

    def assume(self, t):
        self.eng.assume(t)

    def cover(self, label="end"):
        self.eng.cover(label)

    def trust(self, text):
        self.eng.assumptions.add(text)

    def call(self, fn, *a, exc=Exception, **k):
        """Result of the call, or Raised."""
        try:
            return fn(*a, **k)
        except exc as e:  # noqa: BLE001
            if isinstance(e, (TypeError, AttributeError)) and not _in_calliope(e):
                # the call itself did not fit (renamed method, changed signature): not a verdict
                raise NotCallable(f"{type(e).__name__}: {e}") from e
            if isinstance(e, (AttributeError, NameError, RecursionError, NotImplementedError)) and _innermost_dv(e):
                # an operation the symbolic arrays do not model, not behaviour of the code
                raise core.Unsupported(f"{type(e).__name__}: {e}") from e
            return Raised(e)

    # -- spec helpers
    def forall(self, dims, f):
        raise NotImplementedError

    def spec(self, a) -> PArr:
        """View any array as a function from indices to cells."""
        raise NotImplementedError

    def cell(self, a, env) -> Cell:
        s = self.spec(a)
        miss = [d for d in s._d if d not in env]
        if miss:
            raise Mismatch(f"array has unexpected dimensions {miss}")
        return s.at(env)

    def same_array(self, got, want, dims=None):
        """got == want at every index of the union of dimensions; got spans no more dims."""
        g, w = self.spec(got), self.spec(want)
        ds = {**g._dm, **w._dm}
        return self.forall(list(ds.values()), lambda env: same(g.at(env), w.at(env)))

    def unchanged(self, snap):
        arrs = snap
        return And(*[self.same_array(a, b) for a, b in arrs])


class SymH(H):
    def __init__(self, eng, mode="proof", sizes=None):
        super().__init__(eng)
        self.mode = mode
        self.sizes = sizes or {}
        self.reg = {"dims": {}, "arrays": {}, "scalars": {}, "choices": []}
        eng.reg = self.reg
        eng.concrete = False

    def dim(self, name, kind="U", min=1, labels=None):
        e = self.eng
        if labels is not None:
            n = len(labels)
            cells = [const_cell(x) for x in labels]

            def lab(i):
                i = z3.simplify(i)
                if z3.is_int_value(i):
                    return cells[i.as_long()]
                t = cells[-1]
                for j in range(len(cells) - 2, -1, -1):
                    t = arr.c_ite(i == j, cells[j], t)
                return t

            D = Dim(name, n, cells[0].kind, lab)
            D.key = list(labels)
            self.reg["dims"][name] = (D, labels)
            return D
        if self.mode == "search":
            n = self.sizes.get(name, 2)
            n = max(n, min)
        else:
            n = z3.Int("n_" + name)
            e.assume(n >= min)
        lsort = z3.IntSort()
        f = z3.Function("lab_" + name, z3.IntSort(), lsort)
        D = Dim(name, n, kind, lambda i: Cell(kind, f(i)))
        # labels are unique (index), and increasing for time
        if isinstance(n, int):
            for i in range(n):
                for j in range(i):
                    e.axiom(f(z3.IntVal(j)) < f(z3.IntVal(i)) if kind == "M" else f(z3.IntVal(j)) != f(z3.IntVal(i)))
        else:
            i, j = z3.Ints(f"i_{name} j_{name}")
            rng = z3.And(0 <= i, i < j, j < n)
            e.axiom(z3.ForAll([i, j], z3.Implies(rng, f(i) < f(j) if kind == "M" else f(i) != f(j)),
                              patterns=[z3.MultiPattern(f(i), f(j))]))
        self.reg["dims"][name] = (D, None)
        return D

    def array(self, name, dims, kind="f", null=True, inf=False, attrs=None, values=None):
        """kind: f float, b bool, i int, U str, S nullable str, B nullable bool, O decision
        expression (finite where present), M time."""
        sorts = [z3.IntSort()] * len(dims)
        names = [d.name for d in dims]
        vs = {"f": z3.RealSort(), "i": z3.RealSort(), "O": z3.RealSort(), "b": z3.BoolSort(),
              "B": z3.BoolSort(), "U": z3.IntSort(), "S": z3.IntSort(), "M": z3.IntSort()}[kind]

        def fn(tag, sort):
            if sorts:
                f = z3.Function(f"{name}.{tag}", *sorts, sort)
                return lambda args: f(*args)
            c = z3.Const(f"{name}.{tag}", sort)
            return lambda args: c

        fv = fn("v", vs)
        isnull = fn("null", z3.BoolSort()) if (null and kind in "fOSBM") else None
        fp = fn("pinf", z3.BoolSort()) if (inf and kind in "f") else None
        fm = fn("ninf", z3.BoolSort()) if (inf and kind in "f") else None

        def at(env):
            args = [env[d] for d in names]
            v = fv(args)
            nl = isnull(args) if isnull else z3.BoolVal(False)
            p = z3.And(z3.Not(nl), fp(args)) if fp else z3.BoolVal(False)
            m = z3.And(z3.Not(nl), z3.Not(fp(args)), fm(args)) if fm else z3.BoolVal(False)
            if values is not None and kind in "USM":
                # string array over a known vocabulary
                v = _vocab(name, args, values)
            return Cell(kind, v, nl, p, m)

        a = PArr(names, at, kind, name, dict(attrs or {}), {d.name: d for d in dims})
        if values is not None:
            self.eng.vocab[name] = list(values)
        self.reg["arrays"][name] = (a, list(dims), kind)
        return a

    def real(self, name):
        t = z3.Real(name)
        self.reg["scalars"][name] = t
        return SReal(t)

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        self.reg["scalars"][name] = t
        if lo is not None:
            self.eng.assume(t >= lo)
        if hi is not None:
            self.eng.assume(t <= hi)
        return SInt(t)

    def bool(self, name):
        t = z3.Bool(name)
        self.reg["scalars"][name] = t
        return SBool(t)

    def choose(self, label, options):
        options = list(options)
        i = self.eng.choose(label, len(options))
        self.reg["choices"].append((label, i))
        return options[i]

    def forall(self, dims, f):
        env, rng = {}, []
        for d in dims:
            if d.concrete and self.mode == "search":
                pass
            i = z3.Int(self.eng.fresh("p_" + d.name))
            env[d.name] = i
            rng.append(d.inrange(i))
        if self.mode == "search" or all(d.concrete for d in dims):
            if all(d.concrete for d in dims):
                out = []
                for combo in itertools.product(*[range(d.n) for d in dims]):
                    out.append(B(f({d.name: z3.IntVal(k) for d, k in zip(dims, combo)})))
                return And(*out)
        return Implies(And(*rng), f(env))

    def spec(self, a):
        r = arr.lift(a)
        if r is NotImplemented:
            raise Unsupported(f"spec view of {type(a).__name__}")
        return r

    @contextlib.contextmanager
    def patch(self, *mods, extra=()):
        """Replace the module-level name `xr` in each module by the contract shim."""
        tr = []
        for m in mods:
            if hasattr(m, "xr"):
                tr.append((m, "xr", arr.XrShim()))
        with core.patched(*tr, *extra):
            yield

    def stub(self, *triples):
        return core.patched(*triples)

    def dataset(self, arrays, dims=(), attrs=None):
        ds = arr.SDataset({}, {d.name: d for d in dims}, attrs)
        for a in arrays:
            ds[a.name] = a
            ds._arrays[a.name]._attrs_ = dict(a.attrs)
        return ds



def _vocab(name, args, values):
    """One of the values, at each index independently."""
    code = lambda x: arr.code(x) if isinstance(x, str) else const_cell(x).val
    t = code(values[-1])
    for j in range(len(values) - 2, -1, -1):
        if args:
            b = z3.Function(f"{name}.is{j}", *[z3.IntSort()] * len(args), z3.BoolSort())(*args)
        else:
            b = z3.Bool(f"{name}.is{j}")
        t = z3.If(b, code(values[j]), t)
    return t


def decode_model(m: z3.ModelRef, reg, eng):
    """Concrete assignment for a search-mode counter-model."""
    inv = {v: k for k, v in eng.interned.items()}

    def ev(t):
        return m.eval(t, model_completion=True)

    out = {"dims": {}, "arrays": {}, "scalars": {}, "choices": list(reg["choices"])}
    labmaps = {}

    def strof(code):
        if code in inv:
            return inv[code]
        return f"s{code}"

    for name, (D, labels) in reg["dims"].items():
        if labels is not None:
            out["dims"][name] = list(labels)
            continue
        vals = [ev(D.label(z3.IntVal(i)).val).as_long() for i in range(D.n)]
        out["dims"][name] = [strof(v) for v in vals] if D.kind == "U" else vals
    for name, (a, dims, kind) in reg["arrays"].items():
        shape = [d.n for d in dims]
        data = []
        for combo in itertools.product(*[range(n) for n in shape]):
            c = a.at({d.name: z3.IntVal(k) for d, k in zip(dims, combo)})
            if z3.is_true(ev(c.null)):
                data.append(None)
            elif z3.is_true(ev(c.pinf)):
                data.append("inf")
            elif z3.is_true(ev(c.ninf)):
                data.append("-inf")
            elif kind in "bB":
                data.append(bool(z3.is_true(ev(c.val))))
            elif kind in "US":
                data.append(strof(ev(c.val).as_long()))
            elif kind == "M":
                data.append(ev(c.val).as_long())
            else:
                q = ev(c.val)
                if z3.is_algebraic_value(q):
                    q = q.approx(20)
                data.append(float(q.as_fraction()))
        out["arrays"][name] = data
    for name, t in reg["scalars"].items():
        v = ev(t)
        if z3.is_bool(v):
            out["scalars"][name] = z3.is_true(v)
        elif z3.is_int_value(v):
            out["scalars"][name] = v.as_long()
        else:
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            out["scalars"][name] = float(v.as_fraction())
    return out


NUMS = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.25, -2.5, 4.0, 10.0, 100.0, 0.25]


class ConcH(H):
    """Concrete interpretation: from an assignment or a random source."""

    mode = "concrete"

    def __init__(self, eng, rng: random.Random | None = None, assignment=None):
        super().__init__(eng)
        self.rng = rng
        self.asg = assignment
        self.nchoice = 0
        self.given = []
        self.log = {"dims": {}, "arrays": {}, "scalars": {}, "choices": []}
        self.dimreg = {}
        eng.concrete = True

    def _from(self, sec, name):
        if self.asg is not None and name in self.asg[sec]:
            return self.asg[sec][name]
        return None

    def dim(self, name, kind="U", min=1, labels=None):
        lab = self._from("dims", name)
        if labels is not None:
            lab = list(labels)
        elif lab is None:
            r = self.rng or random.Random(0)
            n = r.choice([min, min, min + 1, min + 1, min + 2, max(min, 4)])
            if kind == "U":
                pool = [f"{name[0]}{i}" for i in range(8)] + ["foo", "bar", "a_b"]
                lab = r.sample(pool, n)
            elif kind == "M":
                t0 = pd.Timestamp("2005-01-01").value
                lab = [t0 + i * 3600 * 10**9 for i in range(n)]
            else:
                lab = sorted(r.sample(range(1, 30), n))
        self.log["dims"][name] = list(lab)
        if kind == "M" and lab and not isinstance(lab[0], (pd.Timestamp, str)):
            # order-isomorphic readable time stamps
            cl = [pd.Timestamp(int(v)) if abs(int(v)) > 10**15 else pd.Timestamp("2005-01-01") + pd.Timedelta(hours=int(v) % 10**6) for v in lab]
            labv = cl
        else:
            labv = [pd.Timestamp(x) for x in lab] if kind == "M" else list(lab)
        cells = [_cc(x) for x in labv]

        def labf(i):
            i = z3.simplify(i)
            if z3.is_int_value(i) and 0 <= i.as_long() < len(cells):
                return cells[i.as_long()]
            if not z3.is_int_value(i):
                t = cells[-1]
                for j in range(len(cells) - 2, -1, -1):
                    t = arr.c_ite(i == j, cells[j], t)
                return t
            raise IndexError(name)

        D = Dim(name, len(cells), kind, labf)
        D.key = labv
        self.dimreg[name] = D
        return D

    def array(self, name, dims, kind="f", null=True, inf=False, attrs=None, values=None):
        n = 1
        for d in dims:
            n *= d.n
        data = self._from("arrays", name)
        if data is None or len(data) != n:
            r = self.rng or random.Random(0)
            pn = r.choice([0, 0.2, 0.5, 1.0]) if r.random() < 0.7 else 0.3
            data = []
            for _ in range(n):
                if null and kind in "fOSBM" and r.random() < pn:
                    data.append(None)
                elif inf and kind == "f" and r.random() < 0.15:
                    data.append(r.choice(["inf", "-inf"]))
                elif kind in "bB":
                    data.append(r.random() < 0.5)
                elif kind in "US":
                    data.append(r.choice(values or ["foo", "bar", "a_b"]))
                elif kind == "M":
                    data.append(r.choice(values) if values else r.randrange(0, 10))
                elif kind == "i":
                    data.append(r.randrange(-3, 5))
                else:
                    data.append(r.choice(NUMS))
        self.log["arrays"][name] = list(data)
        vals = []
        for v in data:
            if v is None:
                vals.append(pd.NaT if kind == "M" else (np.nan if kind in "fOSB" else None))
            elif v in ("inf", "-inf") and kind == "f":
                vals.append(float(v))
            elif kind == "M":
                vals.append(pd.Timestamp(v) if not isinstance(v, (int,)) or abs(v) > 10**15 else pd.Timestamp("2005-01-01") + pd.Timedelta(hours=v))
            else:
                vals.append(v)
        shape = [d.n for d in dims]
        dt = {"f": float, "i": int, "b": bool, "U": str, "S": object, "B": object, "O": object, "M": "datetime64[ns]"}[kind]
        a = np.empty(n, dtype=object)
        a[:] = vals
        a = a.reshape(shape)
        if kind == "M":
            a = np.array([x.to_datetime64() for x in vals], dtype=dt).reshape(shape)
        elif kind != "U":
            a = a.astype(dt)
        else:
            a = a.astype(str)
        out = xr.DataArray(a, dims=[d.name for d in dims], coords={d.name: (d.name, d.key) for d in dims},
                           name=name, attrs=dict(attrs or {}))
        self.given.append((out, out.copy(deep=True)))
        return out

    def unmodified(self):
        return all(a.equals(b) for a, b in self.given)

    def _scalar(self, name, gen):
        v = self._from("scalars", name)
        if v is None:
            v = gen(self.rng or random.Random(0))
        self.log["scalars"][name] = v
        return v

    def real(self, name):
        return float(self._scalar(name, lambda r: r.choice(NUMS)))

    def int(self, name, lo=None, hi=None):
        return int(self._scalar(name, lambda r: r.randint(lo if lo is not None else -5, hi if hi is not None else 5)))

    def bool(self, name):
        return bool(self._scalar(name, lambda r: r.random() < 0.5))

    def choose(self, label, options):
        options = list(options)
        if self.asg is not None and self.nchoice < len(self.asg["choices"]):
            i = self.asg["choices"][self.nchoice][1]
        else:
            i = (self.rng or random.Random(0)).randrange(len(options))
        self.nchoice += 1
        self.log["choices"].append((label, i))
        return options[min(i, len(options) - 1)]

    def forall(self, dims, f):
        out = []
        for combo in itertools.product(*[range(d.n) for d in dims]):
            out.append(B(f({d.name: z3.IntVal(k) for d, k in zip(dims, combo)})))
        return And(*out)

    def spec(self, a):
        if isinstance(a, PArr):
            return a
        if not isinstance(a, xr.DataArray):
            r = arr.lift(a)
            if r is NotImplemented:
                raise Mismatch(f"result of type {type(a).__name__}")
            return r
        dims = list(a.dims)
        kind = _kindof(a)
        vals = a.values
        dm = {}
        for d in dims:
            if d in self.dimreg:
                D = self.dimreg[d]
                if a.sizes[d] != D.n or (d in a.coords and list(map(_key, a.coords[d].values)) != list(map(_key, D.key))):
                    if d in a.coords and a.sizes[d] == D.n and set(map(_key, a.coords[d].values)) == set(map(_key, D.key)):
                        a = a.sel({d: D.key})
                        vals = a.values
                    else:
                        D = _mkdim(d, a)
            else:
                D = _mkdim(d, a)
            dm[d] = D

        def at(env):
            idx = []
            sym = False
            for d in dims:
                i = z3.simplify(env[d])
                if not z3.is_int_value(i):
                    sym = True
                    break
                idx.append(i.as_long())
            if sym:
                raise Unsupported("symbolic index into concrete array")
            v = vals[tuple(idx)] if idx else (vals.item() if hasattr(vals, "item") and vals.dtype.kind != "M" else vals)
            return _cc(v, kind)

        return PArr(dims, at, kind, a.name, dict(a.attrs), dm)

    @contextlib.contextmanager
    def patch(self, *mods, extra=()):
        yield

    @contextlib.contextmanager
    def stub(self, *triples):
        with core.patched(*triples):
            yield

    def dataset(self, arrays, dims=(), attrs=None):
        ds = xr.Dataset({a.name: a for a in arrays}, attrs=attrs)
        for d in dims:
            if d.name not in ds.coords:
                ds = ds.assign_coords({d.name: list(d.key)})
        return ds


def _key(x):
    if isinstance(x, (np.datetime64, pd.Timestamp)):
        return pd.Timestamp(x).value
    return x.item() if isinstance(x, np.generic) else x


def _mkdim(d, a):
    n = a.sizes[d]
    labs = list(a.coords[d].values) if d in a.coords else list(range(n))
    cells = [_cc(x) for x in labs]
    D = Dim(d, n, cells[0].kind if cells else "i", lambda i: cells[z3.simplify(i).as_long()])
    D.key = labs
    return D


def _kindof(a):
    k = a.dtype.kind
    if k == "O":
        vals = [v for v in a.values.ravel() if not _isna(v)]
        if vals and all(isinstance(v, str) for v in vals):
            return "S"
        if vals and all(isinstance(v, (bool, np.bool_)) for v in vals):
            return "B"
        return "O"
    return {"f": "f", "i": "i", "u": "i", "b": "b", "U": "U", "M": "M", "m": "M"}[k]


def _isna(v):
    try:
        return bool(pd.isna(v))
    except (TypeError, ValueError):
        return False


def _cc(v, kind=None):
    if isinstance(v, (np.datetime64, pd.Timestamp, np.timedelta64, pd.Timedelta)):
        if pd.isna(v):
            return arr._null_of("M")
        return Cell("M", z3.IntVal(pd.Timestamp(v).value if not isinstance(v, (np.timedelta64, pd.Timedelta)) else pd.Timedelta(v).value))
    if _isna(v):
        return arr._null_of(kind or "f")
    if isinstance(v, np.ndarray) and v.dtype.kind in "Mm":
        return _cc(v[()], kind)
    c = const_cell(v)
    if kind and kind != c.kind:
        if kind in "SU" and c.kind in "US" or kind in "fiO" and c.kind in "fi" or (kind == "B" and c.kind == "b"):
            c.kind = kind
    return c


# ---------------------------------------------------------------------------


def run_symbolic(contract, mode="proof", sizes=None, **kw):
    eng = Engine(contract.name, **kw)
    eng.mode = mode
    cms = []

    def body(e):
        h = SymH(e, mode, sizes)
        e.interned.clear()
        n0 = len(e.obligations)
        contract.fn(h)
        e.cover("end")
        for o in e.obligations[n0:]:
            o.reg = None

    if mode == "search":
        orig = eng.prove

        def prove(label, goal, decode=None):
            return orig(label, goal, decode=lambda m: decode_model(m, eng.reg, eng))

        eng.prove = prove
    eng.run(body)
    return eng


def run_concrete(contract, rng=None, assignment=None):
    """One evaluation; returns (status, info): ok | skip | fail."""
    eng = Engine(contract.name)
    eng.mode = "concrete"
    eng.todo = []
    eng.prefix = []
    import time

    eng.deadline = time.time() + 60
    h = None
    prev, core.CUR = core.CUR, eng
    fails = []

    def prove(label, goal, decode=None):
        g = z3.simplify(B(goal))
        if not z3.is_true(g) and not z3.is_false(g):
            r, _ = eng._check(z3.Not(g), timeout=3000)
            g = z3.BoolVal(r == z3.unsat)
        ok = z3.is_true(g)
        eng.obligations.append(label)
        if not ok:
            fails.append(label)
        return ok

    eng.prove = prove
    try:
        h = ConcH(eng, rng, assignment)
        contract.fn(h)
        if not contract.mutates:
            prove("arguments not modified", h.unmodified())
    except Cut:
        return "skip", None, h, 0
    except Mismatch as e:
        fails.append(f"result shape: {e}")
    except Unsupported as e:
        return "unsupported", e.what, h, 0
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any("/calliope/" in f.filename for f in tb)
        where = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-4:])
        if not inrepo:
            return "error", f"{type(e).__name__}: {e} [{where}]", h, 0
        fails.append(f"unexpected {type(e).__name__}: {str(e)[:300]} [{where}]")
    finally:
        core.CUR = prev
    return ("fail" if fails else "ok"), fails, h, len(eng.obligations)
