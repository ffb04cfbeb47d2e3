"""Symbolic xarray: labelled arrays as functions from index terms to cells.

`PArr` is a real subclass of xarray.DataArray (so isinstance tests in the code under
verification hold), but none of xarray's own code runs on it: every operation is
defined here as an assumed library contract (pointwise denotation), and every
operation that is not defined raises Unsupported.  dv/xcheck.py cross-checks these
contracts against the installed xarray.

A cell is one of
  kind 'b' : Boolean term
  kind 'f','i','O' (numeric payload): flags null, pinf, ninf + Real term
  kind 'U','S' : string code (Int term); 'S' = object array of strings, nullable
  kind 'M' : time stamp (Int term)
  kind 'B' : object array of Booleans, nullable
  kind 'C' : constraint (Boolean term over decision values), nullable
"""
from __future__ import annotations

import math as _math

import numpy as np
import pandas as _pd
import xarray as xr
import z3

from . import core
from .core import And, Iff, Implies, Ite, Not, Or, R, SBool, SInt, SReal, Unsupported, cur

T, F = z3.BoolVal(True), z3.BoolVal(False)
ZERO, ONE = z3.RealVal(0), z3.RealVal(1)
NUMERIC = "fiON"
POW = z3.Function("POW", z3.RealSort(), z3.RealSort(), z3.RealSort())


class Cell:
    __slots__ = ("kind", "val", "null", "pinf", "ninf")

    def __init__(self, kind, val, null=F, pinf=F, ninf=F):
        self.kind, self.val, self.null, self.pinf, self.ninf = kind, val, null, pinf, ninf

    @property
    def finite(self):
        return And(Not(self.null), Not(self.pinf), Not(self.ninf))

    def __repr__(self):
        return f"<{self.kind} null={self.null} pinf={self.pinf} ninf={self.ninf} val={self.val}>"


def code(s: str):
    it = cur().interned
    if s not in it:
        it[s] = len(it) + 1_000_000
    return z3.IntVal(it[s])


def const_cell(x) -> Cell:
    if isinstance(x, Cell):
        return x
    if isinstance(x, SBool):
        return Cell("b", x.t)
    if isinstance(x, (bool, np.bool_)):
        return Cell("b", z3.BoolVal(bool(x)))
    if isinstance(x, SStr):
        return Cell("U", x.t)
    if isinstance(x, SInt):
        return Cell("i", z3.ToReal(x.t))
    if isinstance(x, SReal):
        return Cell("f", x.t)
    if isinstance(x, (int, np.integer)):
        return Cell("i", R(int(x)))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if _math.isnan(x):
            return Cell("f", ZERO, null=T)
        if x == _math.inf:
            return Cell("f", ZERO, pinf=T)
        if x == -_math.inf:
            return Cell("f", ZERO, ninf=T)
        return Cell("f", R(x))
    if isinstance(x, str):
        return Cell("U", code(str(x)))
    if isinstance(x, (_pd.Timestamp, np.datetime64)):
        return Cell("M", z3.IntVal(_pd.Timestamp(x).value))
    if isinstance(x, (_pd.Timedelta, np.timedelta64)):
        return Cell("M", z3.IntVal(_pd.Timedelta(x).value))
    if x is None:
        return Cell("O", ZERO, null=T)
    if isinstance(x, np.ndarray) and x.shape == ():
        return const_cell(x.item())
    raise Unsupported(f"constant of type {type(x).__name__}")


class SStr(str):
    """Symbolic string value (label); only equality against strings is defined."""

    def __new__(cls, t):
        o = str.__new__(cls, f"<sym {t}>")
        o.t = t
        return o

    def __eq__(self, o):
        if isinstance(o, SStr):
            return SBool(self.t == o.t)
        if isinstance(o, str):
            return SBool(self.t == code(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else (not r)

    def __hash__(self):
        raise Unsupported("hash of symbolic string")


class Dim:
    """A dimension: name, length (z3 Int or python int) and a label function."""

    __slots__ = ("name", "n", "kind", "label", "key")

    def __init__(self, name, n, kind, label):
        self.name, self.n, self.kind, self.label = name, n, kind, label

    @property
    def concrete(self):
        return isinstance(self.n, int)

    def nt(self):
        return z3.IntVal(self.n) if isinstance(self.n, int) else self.n

    def inrange(self, i):
        return And(i >= 0, i < self.nt())

    def exists(self, f):
        if self.concrete:
            return Or(*[f(z3.IntVal(k)) for k in range(self.n)])
        e = cur()
        e.depth += 1  # bound names depend on nesting only: equal conditions become equal terms
        b = z3.Int(f"e_{self.name}@{e.depth}")
        try:
            body = f(b)
        finally:
            e.depth -= 1
        if z3.is_true(z3.simplify(body)):
            return T
        if z3.is_false(z3.simplify(body)):
            return F
        if z3.is_quantifier(body) and body.is_exists():  # one block of quantifiers: easier for the solver
            vs = [z3.Const(body.var_name(k), body.var_sort(k)) for k in range(body.num_vars())]
            return z3.Exists([b, *vs], And(self.inrange(b), z3.substitute_vars(body.body(), *reversed(vs))))
        return z3.Exists([b], And(self.inrange(b), body))

    def forall(self, f):
        return Not(self.exists(lambda i: Not(f(i))))


def _is0(t):
    t = z3.simplify(t)
    return z3.is_rational_value(t) and t.as_fraction() == 0


def _sum_over(vals):
    acc = ZERO
    for v in vals:
        acc = acc + v
    return acc


# --------------------------------------------------------------------------
# cell operations (IEEE-like over extended reals; overflow/rounding ignored)


def num(c: Cell) -> Cell:
    if c.kind in NUMERIC:
        return c
    if c.kind == "b":
        return Cell("i", Ite(c.val, ONE, ZERO))
    if c.kind == "B":
        return Cell("O", Ite(c.val, ONE, ZERO), c.null)
    raise Unsupported(f"numeric use of kind {c.kind}")


def _rk(a, b, op=None):
    if "O" in (a.kind, b.kind):
        return "O"
    if a.kind == "i" and b.kind == "i" and op != "/":
        return "i"
    return "f"


def c_add(a, b):
    a, b = num(a), num(b)
    null = Or(a.null, b.null, And(a.pinf, b.ninf), And(a.ninf, b.pinf))
    return Cell(_rk(a, b), a.val + b.val, null, And(Not(null), Or(a.pinf, b.pinf)),
                And(Not(null), Or(a.ninf, b.ninf)))


def c_neg(a):
    a = num(a)
    return Cell(a.kind, -a.val, a.null, a.ninf, a.pinf)


def c_sub(a, b):
    return c_add(a, c_neg(b))


def _inf(a):
    return Or(a.pinf, a.ninf)


def _pos(a):
    return Or(a.pinf, And(Not(_inf(a)), a.val > 0))


def _neg(a):
    return Or(a.ninf, And(Not(_inf(a)), a.val < 0))


def _zero(a):
    return And(Not(_inf(a)), a.val == 0)


def c_mul(a, b):
    a, b = num(a), num(b)
    ai, bi = _inf(a), _inf(b)
    if z3.is_false(ai) and z3.is_false(bi):
        return Cell(_rk(a, b), a.val * b.val, Or(a.null, b.null))
    null = Or(a.null, b.null, And(ai, _zero(b)), And(bi, _zero(a)))
    inf = And(Not(null), Or(ai, bi))
    same = Or(And(_pos(a), _pos(b)), And(_neg(a), _neg(b)))
    return Cell(_rk(a, b), a.val * b.val, null, And(inf, same), And(inf, Not(same)))


def c_div(a, b):
    a, b = num(a), num(b)
    ai, bi = _inf(a), _inf(b)
    bz = z3.simplify(b.val == 0) if z3.is_rational_value(z3.simplify(b.val)) else b.val == 0
    bz = And(Not(bi), bz)
    az = And(Not(ai), a.val == 0)
    null = Or(a.null, b.null, And(ai, bi), And(az, bz))
    inf = And(Not(null), Or(ai, bz))
    # division by zero keeps the sign of the numerator (positive zero assumed)
    pos = Or(And(bz, _pos(a)), And(Not(bz), Or(And(_pos(a), _pos(b)), And(_neg(a), _neg(b)))))
    v = Ite(bi, ZERO, a.val / b.val)
    return Cell(_rk(a, b, "/"), v, null, And(inf, pos), And(inf, Not(pos)))


def c_pow(a, b):
    a, b = num(a), num(b)
    bv = z3.simplify(b.val)
    if z3.is_rational_value(bv) and z3.is_false(_inf(b)):
        q = bv.as_fraction()
        if not z3.is_false(b.null):  # a masked exponent (1**nan is not distinguished)
            r = c_pow(a, Cell(b.kind, b.val))
            return Cell(r.kind, r.val, Or(a.null, b.null), And(Not(b.null), r.pinf), And(Not(b.null), r.ninf))
        if q == 1:
            return a
        if q in (2, 3, 4):
            r = a
            for _ in range(int(q) - 1):
                r = c_mul(r, a)
            return r
        if q == -1:
            return c_div(Cell("i", ONE), a)
        if q == 0:
            return Cell(_rk(a, b), ONE)
    e = cur()
    e.abstract = True
    v = POW(a.val, b.val)
    e.axiom(POW(a.val, ZERO) == 1)
    e.axiom(POW(a.val, ONE) == a.val)
    e.axiom(Implies(a.val >= 0, v >= 0))
    e.axiom(Implies(a.val > 0, v > 0))
    # result for infinite operands / negative base is not characterised
    if not z3.is_false(z3.simplify(Or(_inf(a), _inf(b)))):
        raise Unsupported("power with possibly infinite operand")
    return Cell(_rk(a, b), v, Or(a.null, b.null))


def _numcmp(a, b, f, ordinal):
    """ordinal: function on (lt, eq) -> Bool"""
    a, b = num(a), num(b)
    eq = Or(And(a.pinf, b.pinf), And(a.ninf, b.ninf), And(Not(_inf(a)), Not(_inf(b)), a.val == b.val))
    lt = Or(And(a.ninf, Not(b.ninf)), And(b.pinf, Not(a.pinf)),
            And(Not(_inf(a)), Not(_inf(b)), a.val < b.val))
    return And(Not(a.null), Not(b.null), ordinal(lt, eq))


def _strk(k):
    return k in "US"


def c_eq(a, b):
    if _strk(a.kind) and _strk(b.kind):
        return Cell("b", And(Not(a.null), Not(b.null), a.val == b.val))
    if a.kind == "M" and b.kind == "M":
        return Cell("b", And(Not(a.null), Not(b.null), a.val == b.val))
    if a.kind in "bB" and b.kind in "bB":
        return Cell("b", And(Not(a.null), Not(b.null), Iff(a.val, b.val)))
    if _strk(a.kind) or _strk(b.kind) or "M" in (a.kind, b.kind):
        return Cell("b", F)  # values of different type never compare equal
    return Cell("b", _numcmp(a, b, None, lambda lt, eq: eq))


def c_ne(a, b):
    return Cell("b", Not(c_eq(a, b).val))


def _cmp(a, b, ordinal):
    if a.kind == "M" and b.kind == "M":
        return Cell("b", And(Not(a.null), Not(b.null), ordinal(a.val < b.val, a.val == b.val)))
    if _strk(a.kind) or _strk(b.kind) or "M" in (a.kind, b.kind):
        raise Unsupported("ordering of non-numeric values")
    return Cell("b", _numcmp(a, b, None, ordinal))


def c_lt(a, b):
    return _cmp(a, b, lambda lt, eq: lt)


def c_le(a, b):
    return _cmp(a, b, lambda lt, eq: Or(lt, eq))


def c_gt(a, b):
    return c_lt(b, a)


def c_ge(a, b):
    return c_le(b, a)


def c_notnull(a):
    return Cell("b", Not(a.null))


def c_truth(a):
    """numpy truthiness (astype(bool)): NaN is True."""
    if a.kind == "b":
        return a.val
    if a.kind in NUMERIC:
        return Or(a.null, a.pinf, a.ninf, a.val != 0)
    if a.kind == "B":
        return Or(a.null, a.val)
    raise Unsupported(f"truth of kind {a.kind}")


def promote(*kinds):
    ks = set(kinds)
    if len(ks) == 1:
        return ks.pop()
    if ks <= {"i", "f"}:
        return "f"
    if ks <= {"i", "f", "O"}:
        return "O"
    if ks <= {"U", "S"}:
        return "S"
    if ks <= {"b", "B"}:
        return "B"
    return None


def c_ite(c, a: Cell, b: Cell, kind=None):
    """if c then a else b, with an empty (null constant) side taking the other kind."""
    k = kind or promote(a.kind, b.kind)
    if k is None:
        # a literally-null constant may take any kind; a literally dead branch is dropped
        if z3.is_true(a.null):
            k = {"U": "S", "b": "B"}.get(b.kind, b.kind)
            a = _null_of(k)
        elif z3.is_true(b.null):
            k = {"U": "S", "b": "B"}.get(a.kind, a.kind)
            b = _null_of(k)
        elif z3.is_true(c):
            return a
        elif z3.is_false(c):
            return b
        else:
            raise Unsupported(f"mixing kinds {a.kind}/{b.kind}")
    if a.val.sort() != b.val.sort():
        raise Unsupported(f"mixing kinds {a.kind}/{b.kind}")
    # the payload of a missing cell is never read, so a literally missing side lends no payload
    val = a.val if z3.is_true(b.null) else b.val if z3.is_true(a.null) else Ite(c, a.val, b.val)
    return Cell(k, val, Ite(c, a.null, b.null), Ite(c, a.pinf, b.pinf),
                Ite(c, a.ninf, b.ninf))


def _null_of(kind):
    if kind in "US":
        return Cell("S", z3.IntVal(0), T)
    if kind == "M":
        return Cell("M", z3.IntVal(0), T)
    if kind in "bBC":
        return Cell("B" if kind in "bB" else "C", F, T)
    return Cell("f" if kind == "i" else kind, ZERO, T)


def where_kind(kind):
    return {"b": "B", "i": "f", "U": "S"}.get(kind, kind)


# --------------------------------------------------------------------------


class _DType:
    def __init__(self, kind):
        self.kind = {"b": "b", "f": "f", "i": "i", "O": "O", "S": "O", "U": "U", "M": "M",
                     "B": "O", "C": "O", "N": "f"}[kind]

    def __str__(self):
        return {"b": "bool", "f": "float64", "i": "int64", "O": "object", "U": "<U10", "M": "datetime64[ns]"}[self.kind]

    __repr__ = __str__

    @property
    def name(self):
        return str(self)

    def __eq__(self, o):
        if isinstance(o, _DType):
            return self.kind == o.kind
        try:
            return np.dtype(o).kind == self.kind
        except TypeError:
            return False

    def __hash__(self):
        return hash(self.kind)


class _Values:
    """`.values` of a symbolic array: only usable as a numpy `where=` mask or re-wrapped."""

    def __init__(self, parr):
        self.parr = parr


class _NoAttr:
    def __init__(self, name):
        self.name = name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        raise Unsupported(f"DataArray.{self.name}")


class PArr(xr.DataArray):
    __slots__ = ("_d", "_at", "_kind", "_nm", "_attrs_", "_dm", "_sc", "_boolsum")

    def __init__(self, dims, at, kind, name=None, attrs=None, dm=None, sc=None):
        self._d = tuple(dims)
        self._at = at
        self._kind = kind
        self._nm = name
        self._attrs_ = attrs if attrs is not None else {}
        self._dm = dm or {}
        self._sc = sc or {}
        self._boolsum = None

    # -- basics
    def at(self, env):
        return self._at({d: env[d] for d in self._d})

    def _like(self, at, kind=None, dims=None, dm=None, name=None, attrs=None, sc=None):
        dims = self._d if dims is None else tuple(dims)
        dm = dict(self._dm if dm is None else dm)
        return PArr(dims, at, kind or self._kind, self._nm if name is None else name,
                    attrs or {}, {d: dm[d] for d in dims}, self._sc if sc is None else sc)

    dims = property(lambda s: s._d)
    name = property(lambda s: s._nm)

    @name.setter
    def name(self, v):
        self._nm = v

    attrs = property(lambda s: s._attrs_)

    @attrs.setter
    def attrs(self, v):
        self._attrs_ = dict(v)

    dtype = property(lambda s: _DType(s._kind))
    ndim = property(lambda s: len(s._d))
    values = property(lambda s: _Values(s))
    data = property(lambda s: _Values(s))

    @property
    def shape(self):
        return tuple(SInt(self._dm[d].nt()) if not self._dm[d].concrete else self._dm[d].n for d in self._d)

    @property
    def sizes(self):
        return dict(zip(self._d, self.shape))

    @property
    def coords(self):
        out = {d: coord_array(self._dm[d]) for d in self._d}
        out.update(self._sc)
        return out

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s if isinstance(r, int) and r == 1 else r * s
        return r

    def __len__(self):
        n = self._dm[self._d[0]].n
        if isinstance(n, int):
            return n
        raise Unsupported("len of symbolic dimension")

    def __iter__(self):
        if not self._d:
            raise TypeError("iteration over a 0-d array")
        n = self._dm[self._d[0]].n
        if isinstance(n, int):
            return iter([self.isel({self._d[0]: k}) for k in range(n)])
        raise Unsupported("iteration over symbolic dimension")

    def __bool__(self):
        if self._d:
            if all(self._dm[d].concrete and self._dm[d].n == 1 for d in self._d):
                return bool(SBool(c_truth(self.at({d: z3.IntVal(0) for d in self._d}))))
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(SBool(c_truth(self.at({}))))

    def __hash__(self):
        raise TypeError("unhashable type: 'DataArray'")

    def __repr__(self):
        return f"<PArr {self._nm} {self._d} {self._kind}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def _item(self, *a):
        if self._d:
            if all(self._dm[d].concrete and self._dm[d].n == 1 for d in self._d):
                return cell_value(self.at({d: z3.IntVal(0) for d in self._d}))
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return cell_value(self.at({}))

    def __float__(self):
        v = self.item()
        if isinstance(v, float):
            return v
        raise Unsupported("float() of symbolic array")

    def __int__(self):
        c = self.at({})
        if c.kind in NUMERIC:
            v = z3.simplify(c.val)
            if z3.is_rational_value(v) and v.as_fraction().denominator == 1 and z3.is_false(z3.simplify(c.null)):
                return int(v.as_fraction())
        raise Unsupported("int() of symbolic array")

    __index__ = __int__

    def copy(self, *a, **k):
        return self._like(self._at, attrs=dict(self._attrs_))

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def load(self):
        return self

    compute = persist = load

    def assign_attrs(self, *a, **k):
        d = dict(self._attrs_)
        for x in a:
            d.update(x)
        d.update(k)
        r = self.copy()
        r._attrs_ = d
        return r

    def rename(self, new=None, **k):
        if isinstance(new, str) or new is None and not k:
            r = self.copy()
            r._nm = new
            return r
        raise Unsupported("rename of dims")

    # -- elementwise
    def _ew1(self, f, kind):
        return self._like(lambda env: f(self._at(env)), kind=kind, name=self._nm)

    def _bin(self, other, f, kind, reverse=False):
        o = lift(other)
        if o is NotImplemented:
            return NotImplemented
        a, b = (o, self) if reverse else (self, o)
        dims, dm = _bdims(a, b)
        return PArr(dims, lambda env: f(a.at(env), b.at(env)), kind(a._kind, b._kind),
                    self._nm if (self._nm == o._nm) else None, {}, dm, _merge_sc(a, b))

    def _arith(self, other, f, op, reverse=False):
        def kind(x, y):
            x = {"b": "i", "B": "O"}.get(x, x)
            y = {"b": "i", "B": "O"}.get(y, y)
            if "O" in (x, y):
                return "O"
            if x == y == "i" and op not in "/":
                return "i"
            return "f"

        if isinstance(other, PArr) or True:
            o = lift(other)
            if o is NotImplemented:
                return NotImplemented
            if self._kind in "USMC" or o._kind in "USMC":
                if op in "+-" and "M" in (self._kind + o._kind):
                    return self._time(o, op, reverse)
                raise Unsupported(f"arithmetic on kinds {self._kind},{o._kind}")
        return self._bin(other, f, kind, reverse)

    def _time(self, o, op, reverse):
        # time stamps and time deltas are integers of nanoseconds
        a, b = (o, self) if reverse else (self, o)
        dims, dm = _bdims(a, b)

        def f(env):
            x, y = a.at(env), b.at(env)
            return Cell("M", x.val + y.val if op == "+" else x.val - y.val, Or(x.null, y.null))

        return PArr(dims, f, "M", None, {}, dm, _merge_sc(a, b))

    def __add__(s, o): return s._arith(o, c_add, "+")
    def __radd__(s, o): return s._arith(o, c_add, "+", True)
    def __sub__(s, o): return s._arith(o, c_sub, "-")
    def __rsub__(s, o): return s._arith(o, c_sub, "-", True)
    def __mul__(s, o): return s._arith(o, c_mul, "*")
    def __rmul__(s, o): return s._arith(o, c_mul, "*", True)
    def __truediv__(s, o): return s._arith(o, c_div, "/")
    def __rtruediv__(s, o): return s._arith(o, c_div, "/", True)
    def __pow__(s, o): return s._arith(o, c_pow, "**")
    def __rpow__(s, o): return s._arith(o, c_pow, "**", True)
    def __neg__(s):
        if s._kind in "USMC":
            raise Unsupported("negation")
        return s._ew1(c_neg, s._kind)
    def __pos__(s): return s._ew1(lambda c: c, s._kind)

    def __abs__(s):
        def f(c):
            c = num(c)
            return Cell(c.kind, Ite(c.val < 0, -c.val, c.val), c.null, Or(c.pinf, c.ninf), F)
        return s._ew1(f, s._kind)

    def _cmpop(s, o, f):
        return s._bin(o, f, lambda x, y: "b")

    def __lt__(s, o): return s._cmpop(o, c_lt)
    def __le__(s, o): return s._cmpop(o, c_le)
    def __gt__(s, o):
        bs = s._boolsum
        if bs is not None and type(o) is int and o == 0:
            return bs()
        return s._cmpop(o, c_gt)
    def __ge__(s, o): return s._cmpop(o, c_ge)
    def __eq__(s, o): return s._cmpop(o, c_eq)
    def __ne__(s, o): return s._cmpop(o, c_ne)

    def _logic(s, o, f, reverse=False):
        p = lift(o)
        if p is NotImplemented:
            return NotImplemented
        for k in (s._kind, p._kind):
            if k not in "b":
                if k in "fUSM":
                    raise TypeError(f"ufunc 'bitwise' not supported for the input types ({s._kind},{p._kind})")
                raise Unsupported(f"logical op on kind {k}")
        return s._bin(o, lambda a, b: Cell("b", f(a.val, b.val)), lambda x, y: "b", reverse)

    def __and__(s, o): return s._logic(o, And)
    def __rand__(s, o): return s._logic(o, And, True)
    def __or__(s, o): return s._logic(o, Or)
    def __ror__(s, o): return s._logic(o, Or, True)
    def __xor__(s, o): return s._logic(o, lambda a, b: Not(Iff(a, b)))
    def __rxor__(s, o): return s._logic(o, lambda a, b: Not(Iff(a, b)))
    def __invert__(s):
        if s._kind != "b":
            if s._kind in "fUSM":
                raise TypeError("ufunc 'invert' not supported for the input types")
            raise Unsupported(f"invert of kind {s._kind}")
        return s._ew1(lambda c: Cell("b", Not(c.val)), "b")

    def notnull(s, keep_attrs=None): return s._ew1(c_notnull, "b")
    def isnull(s, keep_attrs=None): return s._ew1(lambda c: Cell("b", c.null), "b")

    def fillna(s, v):
        o = lift(v)
        if o is NotImplemented:
            raise Unsupported("fillna argument")
        dims, dm = _bdims(s, o)
        kind = s._kind
        if kind in "fO" and o._kind == "b":  # False counts as 0
            o = o._ew1(num, "i")
        if kind in "bi":
            if kind == "b" and not o._d:
                return s.copy()
            k = promote(kind, o._kind) or "O"
        else:
            k = promote(kind, o._kind)
            if k is None:
                k = {"U": "S", "b": "B"}.get(o._kind, o._kind) if kind in "fO" else kind

        def f(env):
            a = s.at(env)
            if z3.is_false(a.null):
                return a
            b = o.at(env)
            return c_ite(a.null, b, a)

        return PArr(dims, f, k, s._nm, {}, dm, s._sc)

    def where(s, cond, other=None, drop=False):
        if drop:
            raise Unsupported("where(drop=True)")
        if callable(cond) and not isinstance(cond, xr.DataArray):
            cond = cond(s)
        c = lift(cond)
        if c is NotImplemented:
            raise Unsupported("where condition")
        if other is None:
            dims, dm = _bdims(s, c)
            k = where_kind(s._kind)

            def f(env):
                a = s.at(env)
                r = c_ite(c_truth(c.at(env)), a, _null_of(a.kind))
                r.kind = k
                return r

            return PArr(dims, f, k, s._nm, dict(s._attrs_), dm, s._sc)
        o = lift(other)
        dims, dm = _bdims(s, c, o)
        k = promote(s._kind, o._kind) or "O"

        def g(env):
            return c_ite(c_truth(c.at(env)), s.at(env), o.at(env))

        return PArr(dims, g, k, s._nm, dict(s._attrs_), dm, s._sc)

    def isin(s, test):
        if isinstance(test, (list, tuple, set)):
            cells = [const_cell(x) if not isinstance(x, PArr) else x.at({}) for x in test]
        else:
            raise Unsupported("isin argument")
        return s._ew1(lambda c: Cell("b", Or(*[c_eq(c, x).val for x in cells])), "b")

    def astype(s, dt, **kw):
        try:
            k = np.dtype(dt).kind if not isinstance(dt, _DType) else dt.kind
        except TypeError:
            raise Unsupported(f"astype({dt})")
        if k == "b":
            return s._ew1(lambda c: Cell("b", c_truth(c)), "b")
        if k == "f":
            if s._kind in "USMC":
                raise Unsupported("astype float of non-numeric")
            def f(c):
                c = num(c)
                return Cell("f", c.val, c.null, c.pinf, c.ninf)
            return s._ew1(f, "f")
        if k == "O":
            kk = {"b": "B", "f": "O", "i": "O", "U": "S"}.get(s._kind, s._kind)
            def g(c):
                return Cell(kk, c.val, c.null, c.pinf, c.ninf)
            return s._ew1(g, kk)
        if k == "i" and s._kind in "bi":
            return s._ew1(num, "i")
        raise Unsupported(f"astype({dt}) of kind {s._kind}")

    def clip(s, min=None, max=None, keep_attrs=None):
        r = s
        if min is not None:
            m = lift(min)
            r0 = r
            r = r0._bin(m, lambda a, b: c_ite(c_lt(a, b).val, b, a), lambda x, y: promote(x, y) or "f")
        if max is not None:
            m2 = lift(max)
            r1 = r
            r = r1._bin(m2, lambda a, b: c_ite(c_gt(a, b).val, b, a), lambda x, y: promote(x, y) or "f")
        return r

    def round(s, *a, **k):
        raise Unsupported("round")

    # -- shape
    def broadcast_like(s, other, exclude=None):
        o = lift(other)
        dims, dm = _bdims(o, s)
        # xarray orders dims as in self first? values are label-based, so order is not modelled
        return PArr(dims, lambda env: s.at(env), s._kind, s._nm, dict(s._attrs_), dm, s._sc)

    def transpose(s, *dims, transpose_coords=True, missing_dims="raise"):
        if not dims:
            return s._like(s._at, dims=tuple(reversed(s._d)))
        if ... in dims:
            i = dims.index(...)
            rest = [d for d in s._d if d not in dims]
            dims = (*dims[:i], *rest, *dims[i + 1:])
        if missing_dims == "ignore":
            dims = tuple(d for d in dims if d in s._d)
        if set(dims) != set(s._d):
            raise ValueError(f"{dims} must be a permuted list of {s._d}, unless `...` is included")
        return s._like(s._at, dims=dims, attrs=dict(s._attrs_))

    def squeeze(s, dim=None, drop=False, axis=None):
        ds = [d for d in s._d if s._dm[d].concrete and s._dm[d].n == 1]
        if any(not s._dm[d].concrete for d in s._d):
            # length-one dimensions with unknown length: excluded by precondition n != 1
            for d in s._d:
                if not s._dm[d].concrete:
                    cur().assumptions.add("squeeze: dimensions of a component have length != 1")
        r = s
        for d in ds:
            r = r.isel({d: 0}, drop=True)
        return r

    def expand_dims(s, *a, **k):
        raise Unsupported("expand_dims")

    def stack(s, dim=None, create_index=True, index_cls=None, **kw):
        m = dict(dim or {}, **kw)
        if len(m) != 1:
            raise Unsupported("stack of several dimensions")
        (name, ds), = m.items()
        ds = list(ds)
        miss = [d for d in ds if d not in s._d]
        if miss:
            raise ValueError(f"dimensions {miss} not found")
        return Stk(s, ds, name)

    def to_series(s):
        return _Opaque()

    @property
    def indexes(s):
        return {d: SIndex(s._dm[d]) for d in s._d}

    @property
    def dt(s):
        return _Dt(s)

    def drop_vars(s, names, errors="raise"):
        r = s.copy()
        names = [names] if isinstance(names, str) else list(names)
        r._sc = {k: v for k, v in s._sc.items() if k not in names}
        return r

    def reset_coords(s, *a, **k):
        if k.get("drop"):
            return s.drop_vars(list(s._sc))
        raise Unsupported("reset_coords")

    def _dimset(s, dim):
        if dim is None or dim is ...:
            return list(s._d)
        if isinstance(dim, str):
            dim = [dim]
        dim = list(dim)
        miss = [d for d in dim if d not in s._d]
        if miss:
            raise ValueError(f"dimensions {miss} not found in data dimensions {s._d}")
        return dim

    def any(s, dim=None, keep_attrs=None, **k):
        ds = s._dimset(dim)
        rest = [d for d in s._d if d not in ds]

        def f(env):
            def rec(todo, env):
                if not todo:
                    return c_truth(s.at(env))
                return s._dm[todo[0]].exists(lambda i: rec(todo[1:], {**env, todo[0]: i}))
            return Cell("b", rec(ds, dict(env)))

        return s._like(f, kind="b", dims=rest)

    def all(s, dim=None, keep_attrs=None, **k):
        ds = s._dimset(dim)
        rest = [d for d in s._d if d not in ds]

        def f(env):
            def rec(todo, env):
                if not todo:
                    return c_truth(s.at(env))
                return s._dm[todo[0]].forall(lambda i: rec(todo[1:], {**env, todo[0]: i}))
            return Cell("b", rec(ds, dict(env)))

        return s._like(f, kind="b", dims=rest)

    def count(s, dim=None, keep_attrs=None):
        return s.notnull().sum(dim)

    def sum(s, dim=None, skipna=None, min_count=None, keep_attrs=None, **k):
        ds = s._dimset(dim)
        if not ds:
            if s._kind in "b":
                return s._ew1(num, "i")
            if min_count is None and s._kind != "i":
                return s.copy()  # summing over no axes returns the array itself (skipna fills no NaN)
            return s.copy()
        if s._kind not in "bfiOB":
            raise Unsupported(f"sum of kind {s._kind}")
        rest = [d for d in s._d if d not in ds]
        dmv = {d: s._dm[d] for d in ds}
        kind = "i" if s._kind in "bi" else ("O" if s._kind in "OB" else "f")
        isbool = s._kind == "b"

        def body(env):
            c = num(s.at(env))
            return c

        if all(d.concrete for d in dmv.values()):
            import itertools

            def f(env):
                cells = []
                for combo in itertools.product(*[range(dmv[d].n) for d in ds]):
                    e2 = dict(env)
                    e2.update({d: z3.IntVal(k_) for d, k_ in zip(ds, combo)})
                    cells.append(body(e2))
                return _sum_cells(cells, kind, min_count, skipna)

            return s._like(f, kind=kind, dims=rest)

        e = cur()
        sid = e.fresh("SUM")
        fn = z3.Function(sid, *[z3.IntSort()] * len(rest), z3.RealSort()) if rest else z3.Const(sid, z3.RealSort())
        bound = {d: z3.Int(e.fresh("s_" + d)) for d in ds}
        e.sums[sid] = (fn, rest, ds, bound, dmv, body)

        def g(env):
            e.abstract = True
            args = [env[d] for d in rest]
            v = fn(*args) if args else fn
            if not isbool:
                c0 = body({**env, **bound})
                if z3.is_false(_inf(c0)) and _is0(c0.val):
                    v = ZERO  # every summand is zero

            def ex(pred):
                def rec(todo, en):
                    if not todo:
                        return pred(body(en))
                    return dmv[todo[0]].exists(lambda i: rec(todo[1:], {**en, todo[0]: i}))
                return rec(ds, dict(env))

            if isbool:
                e.axiom(v >= 0)
                e.axiom(Iff(v > 0, ex(lambda c: c.val > 0)))
                return Cell("i", v)
            anyv = ex(lambda c: Not(c.null))
            if not z3.is_true(anyv):  # a witness for the solver: the first entry (every dimension has one)
                z = {**env, **{d: z3.IntVal(0) for d in ds}}
                if all(not dmv[d].concrete for d in ds):
                    anyv = Or(And(*[dmv[d].inrange(z[d]) for d in ds], Not(body(z).null)), anyv)
            hp, hn = ex(lambda c: And(Not(c.null), c.pinf)), ex(lambda c: And(Not(c.null), c.ninf))
            hnull = ex(lambda c: c.null)
            null = F
            if skipna is False:
                null = hnull
            elif min_count:
                null = Not(anyv)
                if min_count > 1:
                    raise Unsupported("min_count > 1")
            null = Or(null, And(hp, hn))
            e.axiom(Implies(Not(anyv), v == 0))
            return Cell(kind, v, null, And(Not(null), hp), And(Not(null), hn))

        out = s._like(g, kind=kind, dims=rest)
        if isbool:
            out._boolsum = lambda: s.any(ds)  # a count compared with zero is an existential
        return out

    def _ext(s, dim, which):
        ds = s._dimset(dim)
        rest = [d for d in s._d if d not in ds]
        e = cur()
        sid = e.fresh(which)
        isM = s._kind == "M"
        sort = z3.IntSort() if isM else z3.RealSort()
        fn = z3.Function(sid, *[z3.IntSort()] * len(rest), sort) if rest else z3.Const(sid, sort)

        def f(env):
            args = [env[d] for d in rest]
            v = fn(*args) if args else fn

            def q(mode, pred):
                def rec(todo, en):
                    if not todo:
                        return pred(s.at(en))
                    D = s._dm[todo[0]]
                    h = (D.exists if mode == "e" else D.forall)
                    return h(lambda i: rec(todo[1:], {**en, todo[0]: i}))
                return rec(ds, dict(env))

            anyv = q("e", lambda c: Not(c.null))
            if not isM:
                infs = q("e", lambda c: Or(c.pinf, c.ninf))
                if not z3.is_false(z3.simplify(infs)):
                    raise Unsupported("max/min of possibly infinite values")
            e.axiom(Implies(anyv, q("e", lambda c: And(Not(c.null), (c.val if isM else num(c).val) == v))))
            e.axiom(q("a", lambda c: Or(c.null, (c.val if isM else num(c).val) <= v if which == "MAX" else (c.val if isM else num(c).val) >= v)))
            return Cell("M" if isM else "f", v, Not(anyv))

        return s._like(f, kind="M" if isM else "f", dims=rest)

    def max(s, dim=None, **k): return s._ext(dim, "MAX")
    def min(s, dim=None, **k): return s._ext(dim, "MIN")

    def roll(s, shifts=None, roll_coords=False, **kw):
        sh = dict(shifts or {}, **kw)
        if roll_coords:
            raise Unsupported("roll_coords")
        for d in sh:
            if d not in s._d:
                raise ValueError(f"dimensions {d!r} do not exist")

        def f(env):
            e2 = dict(env)
            for d, k in sh.items():
                n = s._dm[d].nt()
                e2[d] = z3.simplify((env[d] - int(k)) % n) if s._dm[d].concrete else _rollidx(env[d], int(k), n)
            return s.at(e2)

        return s._like(f, attrs=dict(s._attrs_))

    def shift(s, shifts=None, fill_value=None, **kw):
        sh = dict(shifts or {}, **kw)
        if fill_value is not None:
            raise Unsupported("shift fill_value")

        def f(env):
            e2 = dict(env)
            ok = []
            for d, k in sh.items():
                j = env[d] - int(k)
                ok.append(s._dm[d].inrange(j))
                e2[d] = j
            c = s.at(e2)
            r = c_ite(And(*ok), c, _null_of(c.kind))
            r.kind = where_kind(s._kind)
            return r

        return s._like(f, kind=where_kind(s._kind), attrs=dict(s._attrs_))

    def isel(s, indexers=None, drop=False, missing_dims="raise", **kw):
        ix = dict(indexers or {}, **kw)
        r = s
        for d, k in ix.items():
            if d not in r._d:
                raise ValueError(f"Dimensions {d!r} do not exist")
            r = _isel1(r, d, k)
        return r

    def sel(s, indexers=None, method=None, tolerance=None, drop=False, **kw):
        ix = dict(indexers or {}, **kw)
        r = s
        for d, v in ix.items():
            if d not in r._d:
                raise KeyError(f"{d!r} is not a valid dimension or coordinate")
            r = _sel1(r, d, v)
        return r

    def __getitem__(s, key):
        if isinstance(key, str):
            return s.coords[key]
        if isinstance(key, dict):
            if key and all(isinstance(v, Stk) for v in key.values()):
                return stk_index(s, key)
            return s.isel(key)
        if not isinstance(key, tuple):
            key = (key,)
        return s.isel(dict(zip(s._d, key)))

    def __setitem__(s, key, v):
        raise Unsupported("DataArray item assignment")

    def equals(s, other):
        o = lift(other)
        if set(s._d) != set(o._d):
            return False

        def rec(todo, env):
            if not todo:
                a, b = s.at(env), o.at(env)
                return Or(And(a.null, b.null), c_eq(a, b).val)
            return s._dm[todo[0]].forall(lambda i: rec(todo[1:], {**env, todo[0]: i}))
        return SBool(rec(list(s._d), {}))

    def get_axis_num(s, d):
        return s._d.index(d)

    # -- numpy protocol
    def __array_ufunc__(s, ufunc, method, *inputs, **kw):
        if method != "__call__":
            raise Unsupported(f"ufunc {ufunc} {method}")
        name = ufunc.__name__
        where = kw.pop("where", None)
        dtype = kw.pop("dtype", None)
        if kw:
            raise Unsupported(f"ufunc kwargs {list(kw)}")
        ins = [lift(i) for i in inputs]
        if name in ("equal", "less_equal", "greater_equal") and dtype is not None and np.dtype(dtype).kind == "O":
            a, b = ins
            w = where.parr if isinstance(where, _Values) else (lift(where) if where is not None else None)
            dims, dm = _bdims(a, b, *([w] if w is not None else []))
            op = {"equal": lambda x, y: x == y, "less_equal": lambda x, y: x <= y,
                  "greater_equal": lambda x, y: x >= y}[name]

            def f(env):
                x, y = num(a.at(env)), num(b.at(env))
                null = F if w is None else Not(w.at(env).val)
                bad = Or(x.null, y.null, _inf(x), _inf(y))
                # a comparison with a missing/infinite side is not a constraint over finite values
                v = {"equal": c_eq, "less_equal": c_le, "greater_equal": c_ge}[name](x, y).val
                return Cell("C", v, null)

            return PArr(dims, f, "C", None, {}, dm)
        if where is not None or dtype is not None:
            raise Unsupported(f"ufunc {name} with where/dtype")
        un = {"absolute": "__abs__", "negative": "__neg__", "positive": "__pos__", "logical_not": "__invert__", "invert": "__invert__"}
        if name in un:
            return getattr(ins[0], un[name])()
        if name == "isnan":
            return ins[0].isnull()
        if name == "isinf":
            return ins[0]._ew1(lambda c: Cell("b", And(Not(c.null), Or(c.pinf, c.ninf))), "b")
        if name == "isfinite":
            return ins[0]._ew1(lambda c: Cell("b", c.finite), "b")
        bi = {"add": "__add__", "subtract": "__sub__", "multiply": "__mul__", "divide": "__truediv__",
              "true_divide": "__truediv__", "power": "__pow__", "less": "__lt__", "less_equal": "__le__",
              "greater": "__gt__", "greater_equal": "__ge__", "equal": "__eq__", "not_equal": "__ne__",
              "bitwise_and": "__and__", "logical_and": "__and__", "bitwise_or": "__or__", "logical_or": "__or__"}
        if name in bi:
            return getattr(ins[0], bi[name])(ins[1])
        raise Unsupported(f"ufunc {name}")

    def __array_function__(s, func, types, args, kw):
        raise Unsupported(f"numpy function {func.__name__}")

    def __array__(s, *a, **k):
        raise Unsupported("conversion of symbolic array to numpy")

    def __array_wrap__(s, *a, **k):
        raise Unsupported("array wrap")


for _n in dir(xr.DataArray):
    if _n.startswith("__") or _n in PArr.__dict__:
        continue
    if _n.startswith("_abc") or _n in ("_d", "_at", "_kind", "_nm", "_attrs_", "_dm", "_sc"):
        continue
    if _n in ("_bin", "_ew1", "_like"):
        continue
    setattr(PArr, _n, _NoAttr(_n))
# xarray injects numpy-named methods into every subclass; ours win
PArr.item = PArr._item
PArr.searchsorted = _NoAttr("searchsorted")


class _Opaque:
    """A value only used in an error message."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: self

    def __str__(self):
        return "<symbolic>"

    def __format__(self, spec):
        return "<symbolic>"


class SIndex:
    """pandas index of a dimension."""

    def __init__(self, D):
        self.D = D

    def get_indexer(self, target):
        if not isinstance(target, Stk):
            raise Unsupported("get_indexer")
        a, D, e = target.a, self.D, cur()
        fn = z3.Function(e.fresh("getix_" + D.name), *[z3.IntSort()] * len(a._d), z3.IntSort())

        def at(env):
            k = fn(*[env[x] for x in a._d])
            c = a.at(env)
            there = And(Not(c.null), D.exists(lambda i: c_eq(D.label(i), c).val))
            e.axiom(Implies(And(*[a._dm[x].inrange(env[x]) for x in a._d]),
                            And(Implies(there, And(D.inrange(k), c_eq(D.label(k), c).val)), Implies(Not(there), k == -1))))
            return Cell("i", z3.ToReal(k))

        return Stk(PArr(a._d, at, "i", None, {}, a._dm), target.dims, target.name, bare=True)

    def __iter__(self):
        raise Unsupported("iteration over an index")


class Stk(np.lib.mixins.NDArrayOperatorsMixin):
    """An array whose dimensions `dims` are stacked into one; kept unstacked internally."""

    def __init__(self, a, dims, name, bare=False):
        self.a, self.dims, self.name, self.bare = a, list(dims), name, bare

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__" or kw:
            raise Unsupported("ufunc on stacked array")
        ins = [x.a if isinstance(x, Stk) else x for x in inputs]
        if ufunc.__name__ in ("fmax", "maximum"):
            x, y = lift(ins[0]), lift(ins[1])
            r = x._bin(y, lambda p, q: c_ite(c_lt(p, q).val, q, p), lambda p, q: "i") if isinstance(x, PArr) else None
        else:
            r = ufunc(*ins) if any(isinstance(i, PArr) for i in ins) else None
        if r is None:
            raise Unsupported(ufunc.__name__)
        return Stk(r, self.dims, self.name, self.bare)

    def all(self):
        return bool(self.a.all())

    def any(self):
        return bool(self.a.any())

    def __getitem__(self, k):
        if k == self.name:
            return self
        raise Unsupported("stacked item")

    def __setitem__(self, k, v):
        if isinstance(k, dict) and list(k) == [self.name] and isinstance(k[self.name], Stk):
            m = k[self.name].a
            self.a = self.a.where(~m, v) if not (isinstance(v, float) and v != v) else self.a.where(~m)
            return
        raise Unsupported("stacked assignment")

    def drop_vars(self, names, **k):
        return self

    def unstack(self, name=None, **k):
        return self.a

    def groupby(self, by, **k):
        if not isinstance(by, Stk) or set(by.dims) != set(self.dims):
            raise Unsupported("groupby")
        return Groups(self, by)

    @property
    def dtype(self):
        return self.a.dtype

    def sum(self, dim, min_count=None, skipna=None, **k):
        if dim != self.name:
            raise Unsupported("sum of stacked array over another dimension")
        return self.a.sum(self.dims, min_count=min_count, skipna=skipna)


class Groups:
    """Groups of a stacked array by a label array over a finite vocabulary."""

    def __init__(self, arr_, by):
        self.arr, self.by = arr_, by

    def __iter__(self):
        b = self.by.a
        vocab = cur().vocab.get(b._nm)
        if vocab is None:
            raise Unsupported("groupby over labels of unknown vocabulary")
        n = 0
        for lab in sorted(vocab):
            c = const_cell(lab)

            def ex(todo, env):
                if not todo:
                    return c_eq(b.at(env), c).val
                return b._dm[todo[0]].exists(lambda i: ex(todo[1:], {**env, todo[0]: i}))

            if SBool(ex(list(b._d), {})):
                n += 1
                m = b._ew1(lambda x, c=c: c_eq(x, c), "b")
                yield lab, Stk(self.arr.a.where(m), self.arr.dims, self.arr.name)
        if not n:
            raise ValueError("Failed to group data. Are you grouping by a variable that is all NaN?")


def stk_index(a, key):
    dims = next(iter(key.values())).dims
    name = next(iter(key.values())).name
    rest = [d for d in a._d if d not in key]
    extra = [d for d in dims if d in rest]
    if extra:
        raise Unsupported("stacked index overlapping other dimensions")
    dm = {d: a._dm[d] for d in rest}
    out = list(rest)
    for v in key.values():
        for d in v.a._d:
            if d not in dm:
                dm[d] = v.a._dm[d]
                out.append(d)

    def at(env):
        e2 = {d: env[d] for d in rest}
        for d, v in key.items():
            e2[d] = z3.simplify(z3.ToInt(v.a.at(env).val))
        return a._at(e2)

    return Stk(PArr(out, at, where_kind(a._kind), a._nm, {}, dm), dims, name)


class _Dt:
    """`.dt` of a time coordinate with concrete labels."""

    def __init__(self, a):
        self.a = a

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        (d,) = self.a._d
        labels = getattr(self.a._dm[d], "key", None)
        if labels is None:
            raise Unsupported(".dt of symbolic time labels")
        import pandas as pd
        vals = getattr(xr.DataArray(pd.to_datetime(labels), dims=[d]).dt, k)
        return _DtVals(self.a, d, vals)


class _DtVals:
    def __init__(self, a, d, vals):
        self.a, self.d, self.vals = a, d, vals

    def astype(self, dt):
        vals = [x.item() if isinstance(x, np.generic) else x for x in self.vals.astype(dt).values]
        cells = [const_cell(x) for x in vals]

        def at(env):
            i = z3.simplify(env[self.d])
            if z3.is_int_value(i):
                return cells[i.as_long()]
            t = cells[-1]
            for j in range(len(cells) - 2, -1, -1):
                t = c_ite(i == j, cells[j], t)
            return t

        nm = f"{self.a._nm}.dt.{cur().fresh('v')}"
        cur().vocab[nm] = sorted(set(vals))
        return PArr((self.d,), at, cells[0].kind, nm, {}, self.a._dm)


def concat(objs, dim, **kw):
    """xr.concat of arrays along a new concrete dimension."""
    import pandas as pd

    objs = [lift(o) for o in objs]
    if kw:
        raise Unsupported(f"concat({list(kw)})")
    if not objs:
        raise ValueError("must supply at least one object to concatenate")
    n = len(objs)
    if isinstance(dim, str):
        name, labels = dim, None
    elif isinstance(dim, pd.Index):
        name, labels = dim.name, [const_cell(x) for x in dim]
    elif isinstance(dim, PArr) and len(dim._d) == 1:
        name = dim._d[0]
        D0 = dim._dm[name]
        if D0.concrete and D0.n == n:
            labels = D0
        else:
            raise Unsupported("concat along coordinate of another length")
    else:
        raise Unsupported("concat dim")
    if any(name in o._d for o in objs):
        raise Unsupported("concat along an existing dimension")
    if isinstance(labels, Dim):
        D = labels
    else:
        if labels is None and all(not o._d for o in objs) and all(name in o._sc for o in objs):
            labels = [o._sc[name].at({}) for o in objs]

        def lab(i):
            if labels is None:
                return Cell("i", z3.ToReal(i))
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return labels[i.as_long()]
            t = labels[-1]
            for j in range(n - 2, -1, -1):
                t = c_ite(i == j, labels[j], t)
            return t

        D = Dim(name, n, labels[0].kind if labels else "i", lab)
        if isinstance(dim, pd.Index):
            D.key = list(dim)
    dims, dm = _bdims(*objs)
    k = objs[0]._kind
    for o in objs[1:]:
        k = promote(k, o._kind) or "O"

    def at(env):
        i = z3.simplify(env[name])
        if z3.is_int_value(i):
            return objs[i.as_long()].at(env)
        t = objs[-1].at(env)
        for j in range(n - 2, -1, -1):
            t = c_ite(i == j, objs[j].at(env), t)
        return t

    return PArr((name, *dims), at, k, objs[0]._nm if all(o._nm == objs[0]._nm for o in objs) else None, {}, {name: D, **dm})


def _rollidx(i, k, n):
    """(i - k) mod n for 0 <= i < n; exact for |k| <= n, general mod otherwise."""
    if k == 0:
        return i
    if k == 1:
        return z3.If(i >= 1, i - 1, n - 1)
    if k == -1:
        return z3.If(i <= n - 2, i + 1, z3.IntVal(0))
    return (i - k) % n


def _sum_cells(cells, kind, min_count, skipna):
    anyv = Or(*[Not(c.null) for c in cells])
    hp = Or(*[And(Not(c.null), c.pinf) for c in cells])
    hn = Or(*[And(Not(c.null), c.ninf) for c in cells])
    v = ZERO
    for c in cells:
        v = v + Ite(c.null, ZERO, c.val)
    null = F
    if skipna is False:
        null = Or(*[c.null for c in cells])
    elif min_count:
        null = Not(anyv)
    null = Or(null, And(hp, hn))
    return Cell(kind, v, null, And(Not(null), hp), And(Not(null), hn))


def _isel1(a: PArr, d, k):
    D = a._dm[d]
    rest = tuple(x for x in a._d if x != d)
    if isinstance(k, PArr) and not k._d:
        k = k.item()
    if isinstance(k, (int, np.integer, SInt)):
        if isinstance(k, SInt):
            kt = z3.If(k.t < 0, k.t + D.nt(), k.t)
        else:
            k = int(k)
            kt = z3.IntVal(k) if k >= 0 else (D.nt() + k)
        kt = z3.simplify(kt)
        ok = SBool(D.inrange(kt))
        if not ok:
            raise IndexError(f"index {k} is out of bounds for axis with size {D.n}")
        sc = dict(a._sc)
        sc[d] = PArr((), lambda env, kt=kt: D.label(kt), D.kind, d)
        return PArr(rest, lambda env: a._at({**env, d: kt}), a._kind, a._nm, dict(a._attrs_),
                    {x: a._dm[x] for x in rest}, sc)
    if isinstance(k, slice) and D.concrete:
        rng = range(*k.indices(D.n))
        return _take(a, d, [z3.IntVal(j) for j in rng])
    if isinstance(k, (list,)) and D.concrete:
        return _take(a, d, [z3.IntVal(int(j)) for j in k])
    raise Unsupported(f"isel {d}={type(k).__name__}")


def _take(a, d, idx):
    D = a._dm[d]
    import functools

    def pick(i):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return idx[i.as_long()]
        t = idx[-1] if idx else z3.IntVal(0)
        for j in range(len(idx) - 2, -1, -1):
            t = z3.If(i == j, idx[j], t)
        return t

    D2 = Dim(d, len(idx), D.kind, lambda i: D.label(pick(i)))
    dm = dict(a._dm)
    dm[d] = D2
    return PArr(a._d, lambda env: a._at({**env, d: pick(env[d])}), a._kind, a._nm, dict(a._attrs_), dm, a._sc)


def _sel1(a: PArr, d, v):
    D = a._dm[d]
    rest = tuple(x for x in a._d if x != d)
    if isinstance(v, slice):
        raise Unsupported("sel slice")
    if isinstance(v, (list, tuple)):
        idx = []
        for x in v:
            idx.append(_find(D, x))
        return _take(a, d, idx)
    if isinstance(v, PArr) and v._d:
        if v._d == (d,) and v._dm[d].concrete and v._dm[d] is not D:
            # a plain list of labels along the same dimension
            return _take(a, d, [_find(D, Cellish(v.at({d: z3.IntVal(j)}))) for j in range(v._dm[d].n)])
        return _vsel(a, d, v)
    k = _find(D, v)
    sc = dict(a._sc)
    sc[d] = PArr((), lambda env: D.label(k), D.kind, d)
    return PArr(rest, lambda env: a._at({**env, d: k}), a._kind, a._nm, dict(a._attrs_),
                {x: a._dm[x] for x in rest}, sc)


class Cellish:
    def __init__(self, c):
        self.c = c


def _vsel(a, d, v):
    """Pointwise selection by an array of labels; KeyError unless every label is present."""
    D = a._dm[d]
    rest = tuple(x for x in a._d if x != d)
    shared = [x for x in v._d if x in rest and v._dm[x] is not a._dm[x]]
    if shared or d in v._d:
        raise Unsupported("vectorised sel with differently indexed dimensions")

    def everywhere(todo, env):
        if not todo:
            c = v.at(env)
            return And(Not(c.null), D.exists(lambda i: c_eq(D.label(i), c).val))
        return v._dm[todo[0]].forall(lambda i: everywhere(todo[1:], {**env, todo[0]: i}))

    if not SBool(everywhere(list(v._d), {})):
        raise KeyError(f"not all values found in index {d!r}")
    e = cur()
    ix = z3.Function(e.fresh("vsel_" + d), *[z3.IntSort()] * len(v._d), z3.IntSort())

    def idx(env):
        k = ix(*[env[x] for x in v._d])
        e.axiom(Implies(And(*[v._dm[x].inrange(env[x]) for x in v._d]),
                        And(D.inrange(k), c_eq(D.label(k), v.at(env)).val)))
        return k

    dims = tuple(rest) + tuple(x for x in v._d if x not in rest)
    dm = {**{x: a._dm[x] for x in rest}, **v._dm}
    return PArr(dims, lambda env: a._at({**{x: env[x] for x in rest}, d: idx(env)}), a._kind, a._nm,
                dict(a._attrs_), {x: dm[x] for x in dims}, a._sc)


def _find(D: Dim, v):
    """Index whose label equals v; KeyError path if none."""
    c = v.c if isinstance(v, Cellish) else v.at({}) if isinstance(v, PArr) else const_cell(v)
    e = cur()
    present = D.exists(lambda i: c_eq(D.label(i), c).val)
    if not SBool(present):
        raise KeyError(f"{v}")
    k = z3.Int(e.fresh("sel_" + D.name))
    e.axiom(And(D.inrange(k), c_eq(D.label(k), c).val))
    return k


def _bdims(*arrs):
    dims, dm = [], {}
    for a in arrs:
        for d in a._d:
            if d in dm:
                if dm[d] is not a._dm[d]:
                    raise Unsupported(f"alignment of differently indexed dimension {d}")
            else:
                dims.append(d)
                dm[d] = a._dm[d]
    return tuple(dims), dm


def _merge_sc(a, b):
    sc = dict(a._sc)
    for k, v in b._sc.items():
        if k in sc and sc[k] is not v:
            sc.pop(k)
        elif k not in a._d:
            sc[k] = v
    return sc


def const(x, name=None):
    c = const_cell(x)
    return PArr((), lambda env: c, c.kind, name)


def coord_array(D: Dim):
    return PArr((D.name,), lambda env: D.label(env[D.name]), D.kind, D.name, {}, {D.name: D})


def lift(x):
    if isinstance(x, PArr):
        return x
    if isinstance(x, _Values):
        return x.parr
    if isinstance(x, xr.DataArray):
        if x.ndim == 0:
            r = const(x.item(), x.name)
            r._attrs_ = dict(x.attrs)
            return r
        raise Unsupported("mixing concrete non-scalar DataArray with symbolic one")
    import pandas as pd

    if isinstance(x, (pd.Timedelta, np.timedelta64)):
        v = pd.Timedelta(x).value
        return PArr((), lambda env: Cell("M", z3.IntVal(v)), "M")
    if isinstance(x, (pd.Timestamp, np.datetime64)):
        v = pd.Timestamp(x).value
        return PArr((), lambda env: Cell("M", z3.IntVal(v)), "M")
    if isinstance(x, (SBool, SInt, SReal, bool, int, float, str, np.generic)) or x is None:
        return const(x)
    return NotImplemented


def cell_value(c: Cell):
    """Python-level value of a 0-d array."""
    if c.kind == "b":
        t = z3.simplify(c.val)
        return True if z3.is_true(t) else False if z3.is_false(t) else SBool(t)
    if c.kind in "US":
        if SBool(c.null):
            return float("nan")
        v = z3.simplify(c.val)
        if z3.is_int_value(v):
            inv = {n: t for t, n in cur().interned.items()}
            if v.as_long() in inv:
                return inv[v.as_long()]
        return SStr(c.val)
    if c.kind in NUMERIC:
        if SBool(c.null):
            return float("nan")
        if SBool(c.pinf):
            return float("inf")
        if SBool(c.ninf):
            return float("-inf")
        v = z3.simplify(c.val)
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        return SReal(c.val)
    if c.kind == "M":
        return SInt(c.val)
    raise Unsupported(f"item of kind {c.kind}")


# --------------------------------------------------------------------------
# congruence of abstract sums


def _collect_apps(t, ids, out, seen):
    k = t.get_id()
    if k in seen:
        return
    seen.add(k)
    if z3.is_quantifier(t):
        return  # applications under binders are left alone
    if z3.is_app(t):
        n = t.decl().name()
        if n in ids:
            out.append((n, t))
        for ch in t.children():
            _collect_apps(ch, ids, out, seen)


def sum_congruence(eng, goal, depth=0, ctx=None, timeout=4000):
    """Instances of: equal summands => equal sums, for sum terms in goal/pc."""
    out, seen = [], set()
    ids = eng.sums
    ctx = [Not(goal)] if ctx is None else ctx  # the goal is about to be refuted under its own negation
    for t in [goal, *eng.pc, *eng.axioms]:
        _collect_apps(t, ids, out, seen)
    extra = []
    for i in range(len(out)):
        for j in range(i):
            (n1, t1), (n2, t2) = out[j], out[i]
            f1, r1, d1, b1, dm1, body1 = ids[n1]
            f2, r2, d2, b2, dm2, body2 = ids[n2]
            if t1.eq(t2) or set(d1) != set(d2) or any(dm1[d] is not dm2[d] for d in d1):
                continue
            a1 = dict(zip(r1, t1.children()))
            a2 = dict(zip(r2, t2.children()))
            pt = {d: b1[d] for d in d1}
            nax = len(eng.axioms)
            try:
                c1, c2 = body1({**a1, **pt}), body2({**a2, **pt})
            except (Unsupported, core.Cut):
                del eng.axioms[nax:]
                continue
            rng = And(*[dm1[d].inrange(pt[d]) for d in d1])
            same = And(Iff(c1.null, c2.null), Or(c1.null, c1.val == c2.val))
            sub = []
            if depth < 2:
                sub = sum_congruence_inner(eng, same, depth + 1, ctx, timeout)
            r, _ = eng._check(*ctx, rng, Not(same), *sub, timeout=timeout)
            if r == z3.unsat:
                extra.append(t1 == t2)
    return extra


def sum_congruence_inner(eng, goal, depth, ctx, timeout=4000):
    ids = eng.sums
    out, seen = [], set()
    _collect_apps(goal, ids, out, seen)
    if len(out) < 2:
        return []
    return sum_congruence(eng, goal, depth, ctx, timeout)


# --------------------------------------------------------------------------


class SDataset:
    """Symbolic xr.Dataset: named arrays + dimensions."""

    def __init__(self, arrays=None, dims=None, attrs=None):
        object.__setattr__(self, "_arrays", dict(arrays or {}))
        object.__setattr__(self, "_dims", dict(dims or {}))
        object.__setattr__(self, "attrs", dict(attrs or {}))

    @property
    def __class__(self):
        return xr.Dataset

    def __contains__(self, k):
        return k in self._arrays or k in self._dims

    def __getitem__(self, k):
        if isinstance(k, str):
            if k in self._arrays:
                return self._arrays[k]
            if k in self._dims:
                return coord_array(self._dims[k])
            raise KeyError(f"No variable named {k!r}.")
        if isinstance(k, (list, set, tuple)):
            return SDataset({n: self._arrays[n] for n in k if n in self._arrays}, self._dims)
        raise Unsupported(f"Dataset[{type(k).__name__}]")

    def __setitem__(self, k, v):
        v = lift(v)
        v = v.assign_attrs(v.attrs)
        v._nm = k
        self._arrays[k] = v
        for d, D in v._dm.items():
            self._dims.setdefault(d, D)

    def __delitem__(self, k):
        del self._arrays[k]

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in self._arrays or k in self._dims:
            return self[k]
        if hasattr(xr.Dataset, k):
            raise Unsupported(f"Dataset.{k}")
        raise AttributeError(f"'Dataset' object has no attribute {k!r}")

    def get(self, k, default=None):
        return self[k] if k in self else default

    def keys(self):
        return self._arrays.keys()

    def __iter__(self):
        return iter(self._arrays)

    def __len__(self):
        return len(self._arrays)

    def __bool__(self):
        return bool(self._arrays)

    def items(self):
        return self._arrays.items()

    def values(self):
        return self._arrays.values()

    @property
    def data_vars(self):
        return dict(self._arrays)

    @property
    def dims(self):
        return {k: D.n for k, D in self._dims.items()}

    @property
    def sizes(self):
        return self.dims

    @property
    def coords(self):
        return {k: coord_array(D) for k, D in self._dims.items()}

    def copy(self, *a, **k):
        return SDataset(self._arrays, self._dims, self.attrs)

    def assign(self, variables=None, **k):
        r = self.copy()
        for n, v in dict(variables or {}, **k).items():
            r[n] = v
        return r

    def filter_by_attrs(self, **kw):
        sel = {n: a for n, a in self._arrays.items() if all(a.attrs.get(x) == y for x, y in kw.items())}
        return SDataset(sel, self._dims)


# --------------------------------------------------------------------------
# shim for the `xarray` module name inside modules under verification


class _DAMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, xr.DataArray)

    def __subclasscheck__(cls, c):
        return issubclass(c, xr.DataArray)

    def __call__(cls, data=np.nan, coords=None, dims=None, name=None, attrs=None, **kw):
        if isinstance(data, Stk):
            return data
        if isinstance(data, PArr):
            if coords is not None or dims is not None:
                raise Unsupported("DataArray(sym, coords)")
            r = data.copy()
            if name is not None:
                r._nm = name
            if attrs is not None:
                r._attrs_ = dict(attrs)
            return r
        if coords is None and dims is None:
            lf = lift(data)
            if lf is not NotImplemented:
                r = lf.copy()
                r._nm = name if name is not None else r._nm
                r._attrs_ = dict(attrs or {})
                return r
        return xr.DataArray(data, coords=coords, dims=dims, name=name, attrs=attrs, **kw)

    def __getattr__(cls, k):
        return getattr(xr.DataArray, k)


class DataArrayShim(metaclass=_DAMeta):
    pass


class _DSMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (xr.Dataset, SDataset))

    def __call__(cls, data_vars=None, coords=None, attrs=None):
        if coords is not None:
            raise Unsupported("Dataset(coords)")
        ds = SDataset({}, {}, attrs)
        for k, v in (data_vars or {}).items():
            ds[k] = v
        return ds


class DatasetShim(metaclass=_DSMeta):
    pass


class XrShim:
    """Stand-in for the xarray module in a module under verification."""

    DataArray = DataArrayShim
    Dataset = DatasetShim

    def __getattr__(self, k):
        v = getattr(xr, k)
        if not callable(v):
            return v

        def guarded(*a, **kw):
            if _has_sym(a) or _has_sym(kw.values()):
                raise Unsupported(f"xr.{k} on symbolic arrays")
            return v(*a, **kw)

        return guarded

    @staticmethod
    def where(cond, x, y, keep_attrs=None):
        c, a, b = lift(cond), lift(x), lift(y)
        dims, dm = _bdims(c, a, b)
        k = promote(a._kind, b._kind) or "O"
        return PArr(dims, lambda env: c_ite(c_truth(c.at(env)), a.at(env), b.at(env)), k, None, {}, dm)

    @staticmethod
    def concat(objs, dim, **kw):
        objs = list(objs)
        if _has_sym(objs) or _has_sym([dim]):
            return concat(objs, dim, **kw)
        return xr.concat(objs, dim, **kw)

    @staticmethod
    def zeros_like(o, dtype=None):
        return o._ew1(lambda c: Cell("f", ZERO), "f") if isinstance(o, PArr) else xr.zeros_like(o, dtype)

    @staticmethod
    def ones_like(o, dtype=None):
        return o._ew1(lambda c: Cell("f", ONE), "f") if isinstance(o, PArr) else xr.ones_like(o, dtype)

    @staticmethod
    def full_like(o, v, dtype=None):
        if isinstance(o, PArr):
            c = const_cell(v)
            return o._ew1(lambda _: c, c.kind)
        return xr.full_like(o, v, dtype)

    @staticmethod
    def broadcast(*arrs, exclude=None):
        if not _has_sym(arrs):
            return xr.broadcast(*arrs)
        ls = [lift(a) for a in arrs]
        dims, dm = _bdims(*ls)
        return tuple(PArr(dims, (lambda env, l=l: l.at(env)), l._kind, l._nm, dict(l._attrs_), dm) for l in ls)


def _has_sym(xs):
    for x in xs:
        if isinstance(x, (PArr, SDataset.__mro__[0], SBool, SInt, SReal, SStr, Stk)) or type(x) is SDataset:
            return True
        if isinstance(x, (list, tuple, set)) and _has_sym(x):
            return True
        if isinstance(x, dict) and _has_sym(x.values()):
            return True
    return False
