"""Linear forms: decision expressions of concrete runs, and relations between them."""
from __future__ import annotations

import numpy as np

TOL = 1e-7


def isnum(x):
    return isinstance(x, (int, float, np.floating, np.integer, bool, np.bool_))


class Lin:
    """const + sum coef*variable.  A product of two non-constant forms is kept as a new opaque variable."""

    __array_ufunc__ = None
    __slots__ = ("k", "t")

    def __init__(self, k=0.0, t=None):
        self.k, self.t = np.float64(k), t or {}

    @staticmethod
    def of(x):
        return x if isinstance(x, Lin) else Lin(x)

    def _add(self, o, s):
        if not (isinstance(o, Lin) or isnum(o)):
            return NotImplemented
        o = Lin.of(o)
        t = dict(self.t)
        for v, c in o.t.items():
            t[v] = t.get(v, 0.0) + s * c
        return Lin(self.k + s * o.k, t)

    def __add__(self, o): return self._add(o, 1.0)
    __radd__ = __add__
    def __sub__(self, o): return self._add(o, -1.0)
    def __rsub__(self, o): return Lin.of(o)._add(self, -1.0)
    def __neg__(self): return Lin()._add(self, -1.0)
    def __pos__(self): return self

    def __mul__(self, o):
        if isinstance(o, Lin):
            if not o.t:
                o = o.k
            elif not self.t:
                return o * self.k
            else:
                return Lin(0.0, {("*", *sorted([repr(self), repr(o)])): 1.0})
        if not isnum(o):
            return NotImplemented
        with np.errstate(all="ignore"):
            o = np.float64(o)
            return Lin(self.k * o, {v: c * o for v, c in self.t.items()})

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Lin):
            if o.t:
                return Lin(0.0, {("/", repr(self), repr(o)): 1.0})
            o = o.k
        with np.errstate(all="ignore"):
            o = np.float64(o)
            return Lin(self.k / o, {v: np.float64(c) / o for v, c in self.t.items()})

    def __rtruediv__(self, o):
        return Lin.of(o) / self

    def __pow__(self, o):
        o = o.k if isinstance(o, Lin) and not o.t else o
        if isnum(o) and o == 1:
            return self
        if not self.t and isnum(o):
            with np.errstate(all="ignore"):
                return Lin(self.k ** np.float64(o))
        return Lin(0.0, {("**", repr(self), repr(o)): 1.0})

    def __rpow__(self, o):
        return Lin.of(o) ** self

    def __le__(self, o): return Rel("<=", self, o)
    def __ge__(self, o): return Rel(">=", self, o)
    def __eq__(self, o): return Rel("==", self, o)
    def __lt__(self, o): return Rel("<", self, o)
    def __gt__(self, o): return Rel(">", self, o)
    def __hash__(self): return id(self)
    def __bool__(self): return True

    def __repr__(self):
        return f"{self.k:.9g}" + "".join(f" + {c:.9g}*{v}" for v, c in sorted(self.t.items(), key=str))

    def clean(self):
        return {v: c for v, c in self.t.items() if abs(c) > 1e-12}

    def nan(self):
        return bool(np.isnan(self.k) or any(np.isnan(c) for c in self.t.values()))


class Rel:
    __array_ufunc__ = None

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, Lin.of(a), Lin.of(b)

    def __repr__(self):
        return f"{self.a!r} {self.op} {self.b!r}"


def near(x, y, tol=TOL):
    x, y = float(x), float(y)
    if np.isnan(x) or np.isnan(y):
        return bool(np.isnan(x) and np.isnan(y))
    if np.isinf(x) or np.isinf(y):
        return x == y
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def same_lin(a, b, tol=TOL):
    a, b = Lin.of(a), Lin.of(b)
    scale = max([1.0, abs(a.k), *map(abs, a.t.values()), *map(abs, b.t.values())])
    if a.nan() or b.nan():
        return a.nan() == b.nan()
    if not np.isfinite(scale):
        return near(a.k, b.k) and all(near(a.t.get(v, 0), b.t.get(v, 0)) for v in {*a.t, *b.t})
    return near(a.k, b.k, tol) and all(abs(a.t.get(v, 0) - b.t.get(v, 0)) <= tol * scale for v in {*a.t, *b.t})


def trivial(op, k):
    """Truth of `k op 0`, None when on the edge."""
    if np.isnan(k):
        return None
    if abs(k) <= 1e-9:
        return True if op in ("<=", ">=", "==") else None
    return {"<=": k <= 0, ">=": k >= 0, "==": False, "<": k < 0, ">": k > 0}[op]


def same_rel(a, b, tol=1e-6):
    """The two relations have the same solutions: proportional linear forms (positively for inequalities)."""
    def form(r):
        d = r.a - r.b
        op = r.op
        if op in (">=", ">"):
            d, op = -d, "<" + op[1:]
        return d, op

    (da, oa), (db, ob) = form(a), form(b)
    if da.nan() or db.nan():
        return None
    ta, tb = da.clean(), db.clean()
    if not ta and not tb:
        x, y = trivial(oa, da.k), trivial(ob, db.k)
        return None if x is None or y is None or abs(da.k) < 1e-7 or abs(db.k) < 1e-7 else x == y
    if not all(np.isfinite([da.k, db.k, *ta.values(), *tb.values()])):
        return None
    if oa != ob or set(ta) != set(tb):
        big = max([abs(x) for x in [*ta.values(), *tb.values()]])
        ta = {v: c for v, c in ta.items() if abs(c) > 1e-9 * big}
        tb = {v: c for v, c in tb.items() if abs(c) > 1e-9 * big}
        if oa != ob or set(ta) != set(tb):
            return False
    v = max(ta, key=lambda x: abs(ta[x]))
    f = tb[v] / ta[v]
    if oa != "==" and f <= 0:
        return False
    scale = max([abs(db.k), *map(abs, tb.values())])
    return abs(db.k - f * da.k) <= tol * max(scale, 1e-12) and all(abs(tb[x] - f * ta[x]) <= tol * scale for x in tb)
