"""Symbolic execution core: path exploration, obligations, scalar symbolic values.

The code under verification is the real function, run by CPython.  Symbolic values are
proxy objects over z3 terms.  Asking a symbolic boolean for its truth value forks the
path (re-execution with a recorded decision prefix).  `prove` emits an obligation
`path condition => goal` that is discharged by z3.
"""
from __future__ import annotations

import contextlib
import itertools
import os
import time
import traceback

import z3

z3.set_param("smt.random_seed", 7)
z3.set_param("sat.random_seed", 7)


DEBUG = os.environ.get("DV_DEBUG")


class Cut(BaseException):
    """Abandon this path (infeasible, or closed by an invariant cut)."""


class Unsupported(BaseException):
    """The code did something the symbolic semantics do not define."""

    def __init__(self, what):
        super().__init__(what)
        self.what = what


class Violation(Exception):
    """Concrete-mode obligation failure."""


CUR: "Engine | None" = None


def cur() -> "Engine":
    if CUR is None:
        raise RuntimeError("no engine active")
    return CUR


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


def B(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def R(x):
    if isinstance(x, (SReal, SInt)):
        t = x.t
    elif isinstance(x, z3.ArithRef):
        t = x
    elif isinstance(x, bool):
        t = z3.RealVal(int(x))
    elif isinstance(x, int):
        t = z3.RealVal(x)
    elif isinstance(x, float):
        from fractions import Fraction

        f = Fraction(x)
        t = z3.RealVal(f"{f.numerator}/{f.denominator}")
    else:
        raise Unsupported(f"real from {type(x)}")
    return z3.ToReal(t) if t.is_int() else t


def And(*a):
    a = [B(x) for x in a]
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return z3.BoolVal(False)
    if not a:
        return z3.BoolVal(True)
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [B(x) for x in a]
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return z3.BoolVal(True)
    if not a:
        return z3.BoolVal(False)
    return a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    a = B(a)
    if z3.is_true(a):
        return z3.BoolVal(False)
    if z3.is_false(a):
        return z3.BoolVal(True)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = B(a), B(b)
    if z3.is_true(a):
        return b
    if z3.is_true(b):
        return a
    if z3.is_false(a):
        return Not(b)
    if z3.is_false(b):
        return Not(a)
    if a.eq(b):
        return z3.BoolVal(True)
    return a == b


def Ite(c, a, b):
    c = B(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if isinstance(a, z3.BoolRef):
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return Not(c)
        if z3.is_false(b):
            return And(c, a)
        if z3.is_true(b):
            return Or(Not(c), a)
        if z3.is_false(a):
            return And(Not(c), b)
        if z3.is_true(a):
            return Or(c, b)
    return z3.If(c, a, b)


class Obligation:
    __slots__ = ("contract", "label", "status", "detail", "secs", "model", "path", "abstract", "reg")

    def __init__(self, contract, label, status, detail="", secs=0.0, model=None, path=()):
        self.contract, self.label, self.status = contract, label, status
        self.detail, self.secs, self.model, self.path = detail, secs, model, path
        self.abstract = False


class Engine:
    """One exploration of one contract."""

    def __init__(self, contract="?", timeout_ms=20000, max_paths=400, budget_s=120.0):
        self.contract = contract
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.budget_s = budget_s
        self.obligations: list[Obligation] = []
        self.paths = 0
        self.completed_paths = 0
        self.problems: list[str] = []  # unsupported / internal problems
        self.solver_s = 0.0
        self.queries = 0
        self.covers: set[str] = set()
        self.assumptions: set[str] = set()
        self._reset_path()

    # ---- path state -------------------------------------------------------
    def _reset_path(self):
        from .nl import Abstraction

        self.instantiated = 0
        self.nl = Abstraction()
        self.pc: list = []
        self.depth = 0
        self.axioms: list = []
        self.k = 0
        self.decisions: list = []
        self.names = itertools.count()
        self.sums: dict = {}
        self.abstract = False
        self.interned: dict = {}
        self.vocab: dict = {}
        self.notes: list = []

    def fresh(self, base):
        return f"{base}!{next(self.names)}"

    def assume(self, t):
        t = z3.simplify(B(t)) if not isinstance(t, bool) else z3.BoolVal(t)
        if z3.is_false(t):
            raise Cut()
        if not z3.is_true(t):
            self.pc.append(t)

    def axiom(self, t):
        t = B(t)
        if not z3.is_true(t):
            self.axioms.append(t)

    def _check(self, *extra, timeout=None, exact=True, ground=True):
        """Satisfiability of the path with `extra`.  First with products abstracted (only unsat is final; with
        exact=False every answer is taken), then exactly."""
        t0 = time.time()
        nl = self.nl
        nl.found = False
        try:
            fs = [nl(t) for t in [*self.pc, *self.axioms, *[B(x) for x in extra]]]
        except z3.Z3Exception:
            fs = None
        if fs is not None and (nl.axioms or any(not a.eq(b) for a, b in zip(fs, [*self.pc, *self.axioms, *[B(x) for x in extra]]))):
            s = z3.Solver()
            s.set("timeout", min(timeout or self.timeout_ms, 4000))
            s.add(*fs)
            s.add(*nl.axioms)
            r = s.check()
            self.queries += 1
            if r == z3.unsat or not exact:
                self.solver_s += time.time() - t0
                return r, s
        else:
            fs = None
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout_ms)
        s.add(*self.pc)
        s.add(*self.axioms)
        s.add(*extra)
        r = s.check()
        if r == z3.unknown and exact and ground:
            from . import inst

            g = fs or [B(x) for x in [*self.pc, *self.axioms, *extra]]
            if inst.unsat([*g, *(nl.axioms if fs else [])], seconds=12.0):
                self.instantiated += 1
                r = z3.unsat
        self.solver_s += time.time() - t0
        self.queries += 1
        return r, s

    def branch(self, t) -> bool:
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if time.time() > self.deadline:
            raise Unsupported("contract time budget exhausted")
        i = self.k
        self.k += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        elif any(t.eq(x) for x in self.pc):
            d = True
        elif any(z3.Not(t).eq(x) for x in self.pc):
            d = False
        else:
            rt, _ = self._check(t, timeout=100, exact=False)
            rf, _ = self._check(z3.Not(t), timeout=100, exact=False)
            if rt == z3.unsat and rf == z3.unsat:
                raise Cut()
            if rt == z3.unsat:
                d = False
            elif rf == z3.unsat:
                d = True
            else:
                d = True
                self.todo.append([*self.decisions, False])
        self.decisions.append(d)
        t = t if d else z3.Not(t)
        if not any(t.eq(x) for x in self.pc):
            self.pc.append(t)
        return d

    def choose(self, label, n) -> int:
        """Nondeterministic choice among n alternatives (a demonic fork)."""
        i = self.k
        self.k += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                self.todo.append([*self.decisions, j])
        self.decisions.append(d)
        return d

    def feasible(self):
        r, _ = self._check()
        return r != z3.unsat

    def cover(self, label):
        """Reachability check: the current path condition is satisfiable."""
        if label in self.covers:
            return
        r, _ = self._check(timeout=5000, exact=False)
        if r == z3.sat or r == z3.unknown:
            self.covers.add(label)

    def prove(self, label, goal, decode=None):
        from . import arr

        goal = B(goal)
        t0 = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.obligations.append(
                Obligation(self.contract, label, "discharged", "trivial", 0.0)
            )
            return True
        extra = arr.sum_congruence(self, g, timeout=300) if self.sums else []
        r, s = self._check(z3.Not(g), *extra, timeout=min(self.timeout_ms, 3000) if self.sums else None, ground=not self.sums)
        if self.sums and r != z3.unsat:
            extra = arr.sum_congruence(self, g)
            r, s = self._check(z3.Not(g), *extra)
            if r == z3.unknown and len(self.sums) <= 3:
                r, s = self._check(z3.Not(g), *extra, ground=True)
        if DEBUG and r != z3.unsat:
            with open(DEBUG, "a") as f:
                f.write(f"== {self.contract}: {label}: {r} decisions={self.decisions}\nGOAL {g}\nPC {self.pc}\nAX {self.axioms}\nEXTRA {extra}\n")
                if r == z3.sat:
                    f.write(f"MODEL {s.model()}\n")
        secs = time.time() - t0
        if r == z3.unsat:
            self.obligations.append(
                Obligation(self.contract, label, "discharged", "z3 unsat", secs)
            )
            return True
        if r == z3.sat:
            m = s.model()
            dec = None
            if decode is not None:
                try:
                    dec = decode(m)
                except Exception as e:  # noqa: BLE001
                    dec = f"<model not decodable: {e!r}>"
            ob = Obligation(
                self.contract, label, "refuted", str(m)[:4000], secs, dec,
                tuple(self.decisions),
            )
            ob.abstract = self.abstract
            self.obligations.append(ob)
            return False
        self.obligations.append(
            Obligation(
                self.contract, label, "unknown", s.reason_unknown(), secs, None,
                tuple(self.decisions),
            )
        )
        return None

    # ---- driver -----------------------------------------------------------
    def run(self, body):
        """Explore all paths of body(engine)."""
        global CUR
        self.todo = [[]]
        self.deadline = time.time() + self.budget_s
        while self.todo:
            if self.paths >= self.max_paths:
                self.problems.append(f"path limit {self.max_paths} reached")
                break
            if time.time() > self.deadline:
                self.problems.append("contract time budget exhausted")
                break
            self.prefix = self.todo.pop()
            self._reset_path()
            self.paths += 1
            prev, CUR = CUR, self
            try:
                body(self)
                self.completed_paths += 1
            except Cut:
                pass
            except Unsupported as e:
                self.problems.append(f"unsupported: {e.what}")
                tb = traceback.extract_tb(e.__traceback__)
                fr = [f for f in tb if "/repo/" in f.filename]
                if fr:
                    self.problems[-1] += f" at {fr[-1].filename}:{fr[-1].lineno}"
                if len(self.problems) > 20:
                    break
            except RecursionError as e:
                self.problems.append(f"recursion: {e}")
                break
            except Exception as e:  # code under test raised something unexpected
                tb = traceback.extract_tb(e.__traceback__)
                where = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-4:])
                self.problems.append(f"uncaught {type(e).__name__}: {e} [{where}]")
                if len(self.problems) > 20:
                    break
            finally:
                CUR = prev
        return self


# ---------------------------------------------------------------------------
# scalars


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = B(t)

    def __bool__(self):
        return cur().branch(self.t)

    def __and__(self, o):
        return SBool(And(self.t, B(o))) if _boolish(o) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return SBool(Or(self.t, B(o))) if _boolish(o) else NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return SBool(Not(self.t))

    def __eq__(self, o):
        return SBool(Iff(self.t, B(o))) if _boolish(o) else NotImplemented

    def __ne__(self, o):
        return SBool(Not(Iff(self.t, B(o)))) if _boolish(o) else NotImplemented

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def item(self):
        return self


def _boolish(o):
    import numpy as np

    return isinstance(o, (bool, SBool, np.bool_, z3.BoolRef))


def _num(o):
    return isinstance(o, (int, float, SInt, SReal)) and not isinstance(o, bool)


class _SNum:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _lift(self, o):
        import numpy as np

        if isinstance(o, _SNum):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.IntVal(int(o))
        if isinstance(o, (int, np.integer)):
            return z3.IntVal(int(o))
        if isinstance(o, (float, np.floating)):
            return R(float(o))
        return None

    def _bin(self, o, f):
        b = self._lift(o)
        if b is None:
            return NotImplemented
        a = self.t
        if a.is_int() and not b.is_int():
            a = z3.ToReal(a)
        elif b.is_int() and not a.is_int():
            b = z3.ToReal(b)
        return f(a, b)

    def __add__(self, o):
        return self._bin(o, lambda a, b: _wrap(a + b))

    def __radd__(self, o):
        return self._bin(o, lambda a, b: _wrap(b + a))

    def __sub__(self, o):
        return self._bin(o, lambda a, b: _wrap(a - b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: _wrap(b - a))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: _wrap(a * b))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: _wrap(_real(a) / _real(b)))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: _wrap(_real(b) / _real(a)))

    def __neg__(self):
        return _wrap(-self.t)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: SBool(a < b))

    def __le__(self, o):
        return self._bin(o, lambda a, b: SBool(a <= b))

    def __gt__(self, o):
        return self._bin(o, lambda a, b: SBool(a > b))

    def __ge__(self, o):
        return self._bin(o, lambda a, b: SBool(a >= b))

    def __eq__(self, o):
        r = self._bin(o, lambda a, b: SBool(a == b))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._bin(o, lambda a, b: SBool(a != b))
        return True if r is NotImplemented else r

    def __hash__(self):
        raise Unsupported("hash of symbolic number")

    def __bool__(self):
        return cur().branch(self.t != 0)

    def item(self):
        return self


def _real(a):
    return z3.ToReal(a) if a.is_int() else a


def _wrap(t):
    return SInt(t) if t.is_int() else SReal(t)


class SInt(_SNum):
    __slots__ = ()

    def __index__(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        raise Unsupported("concrete index from symbolic int")

    def __int__(self):
        return self.__index__()


class SReal(_SNum):
    __slots__ = ()


@contextlib.contextmanager
def patched(*triples):
    """Temporarily set attributes: (obj, name, value)."""
    saved = []
    missing = object()
    try:
        for obj, name, val in triples:
            if isinstance(obj, dict):
                saved.append((obj, name, obj.get(name, missing)))
                obj[name] = val
            else:
                saved.append((obj, name, obj.__dict__.get(name, missing)))
                setattr(obj, name, val)
        yield
    finally:
        for obj, name, old in reversed(saved):
            if isinstance(obj, dict):
                if old is missing:
                    obj.pop(name, None)
                else:
                    obj[name] = old
            elif old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
