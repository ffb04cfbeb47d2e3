"""Independent reference interpreter of the math language, on plain dictionaries.

Written from the documentation of the math syntax: own tokenizer, own parser, arrays are dictionaries
label-tuple -> value over full coordinate products, decision variables are polynomials.  Nothing of
calliope.backend is used.  It is the oracle of the bounded checks that compare whole built models.
"""
import itertools
import math as _m
import re

import numpy as np
import pandas as pd

MISSING = None

# ---------------------------------------------------------------- values


class Poly:
    """Polynomial in decision variables: {sorted tuple of variable ids: coefficient}."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = {k: v for k, v in t.items() if v != 0}

    @staticmethod
    def var(v):
        return Poly({(v,): 1.0})

    @staticmethod
    def of(x):
        return x if isinstance(x, Poly) else Poly({(): float(x)})

    def const(self):
        if not self.t:
            return 0.0
        if set(self.t) == {()}:
            return self.t[()]
        return None

    def __repr__(self):
        return " + ".join(f"{c:g}*{'*'.join(map(str, k))}" for k, c in sorted(self.t.items(), key=str)) or "0"


def simp(p):
    if isinstance(p, Poly):
        c = p.const()
        if c is not None:
            return c
    return p


def padd(a, b, s=1.0):
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return float(a) + s * float(b)
    t = dict(Poly.of(a).t)
    for k, v in Poly.of(b).t.items():
        t[k] = t.get(k, 0.0) + s * v
    return Poly(t)


def pmul(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return float(a) * float(b)
    t = {}
    for k, v in Poly.of(a).t.items():
        for l, w in Poly.of(b).t.items():
            kk = tuple(sorted(k + l, key=str))
            t[kk] = t.get(kk, 0.0) + v * w
    return Poly(t)


def nonnan(x):
    if isinstance(x, float) and _m.isnan(x):
        return MISSING
    return x


def binop(op, a, b):
    if a is MISSING or b is MISSING:
        return MISSING
    if op == "+":
        return nonnan(padd(a, b))
    if op == "-":
        return nonnan(padd(a, b, -1.0))
    if op == "*":
        return nonnan(pmul(a, b))
    a, b = simp(a), simp(b)
    if op == "/":
        if isinstance(b, Poly):
            raise Unsupported("division by a variable")
        if isinstance(a, Poly):
            return pmul(a, 1.0 / b if b else _m.inf)
        if b == 0:
            return MISSING if a == 0 else _m.copysign(_m.inf, a)
        return nonnan(a / b)
    if op == "**":
        if isinstance(b, Poly):
            raise Unsupported("variable exponent")
        if isinstance(a, Poly):
            if b == int(b) and b >= 0:
                r = 1.0
                for _ in range(int(b)):
                    r = pmul(r, a)
                return r
            raise Unsupported("power of a variable")
        return nonnan(float(np.float64(a) ** np.float64(b)))
    raise AssertionError(op)


class Unsupported(Exception):
    pass


class Overlap(Exception):
    pass


class Incomplete(Exception):
    pass


# ---------------------------------------------------------------- arrays


class Arr:
    """dims (tuple of names) and data {label tuple: value}; absent key = missing."""

    def __init__(self, dims, data, name=None):
        self.dims = tuple(dims)
        self.data = data
        self.name = name

    def get(self, env):
        return self.data.get(tuple(env[d] for d in self.dims))


def null(x):
    return x is None or (isinstance(x, float) and _m.isnan(x)) or x is pd.NaT


def norm(v):
    if isinstance(v, (np.bool_, bool)):
        return bool(v)
    if isinstance(v, (np.floating, np.integer, int, float)):
        return float(v)
    if isinstance(v, (np.datetime64, pd.Timestamp)):
        return pd.Timestamp(v)
    return v


def from_xr(da, name=None):
    dims = tuple(map(str, da.dims))
    labels = [[norm(x) for x in da[d].values] for d in dims]
    data = {}
    vals = da.values
    for ix in np.ndindex(*vals.shape):
        v = vals[ix]
        if isinstance(v, np.ndarray):
            v = v.item()
        if null(v) or (isinstance(v, (np.datetime64,)) and np.isnat(v)):
            continue
        data[tuple(labels[i][j] for i, j in enumerate(ix))] = norm(v)
    return Arr(dims, data, name)


# ---------------------------------------------------------------- tokenizer and parser

TOK = re.compile(r"\s*(?:(?P<num>(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?(?![A-Za-z_0-9]))|(?P<inf>\.?inf\b)|(?P<name>[A-Za-z][A-Za-z0-9_]*(?:\.[A-Za-z0-9_]+)*)|(?P<ref>\$[A-Za-z_][A-Za-z0-9_]*)|(?P<op>\*\*|<=|>=|==|[-+*/()\[\],=<>]))")


def tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError(f"at {s[i:i+20]!r}")
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    out.append(("end", ""))
    return out


class P:
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0
        self.s = s

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def take(self, v=None):
        t = self.t[self.i]
        if v is not None and t[1] != v:
            raise SyntaxError(f"expected {v} got {t} in {self.s!r}")
        self.i += 1
        return t

    # arithmetic: sums < products < powers < sign < atom
    def arith(self):
        e = self.term()
        while self.peek()[1] in ("+", "-"):
            op = self.take()[1]
            e = ("bin", op, e, self.term())
        return e

    def term(self):
        e = self.power()
        while self.peek()[1] in ("*", "/"):
            op = self.take()[1]
            e = ("bin", op, e, self.power())
        return e

    def power(self):
        e = self.sign()
        while self.peek()[1] == "**":
            self.take()
            e = ("bin", "**", e, self.sign())
        return e

    def sign(self):
        if self.peek()[1] in ("+", "-"):
            op = self.take()[1]
            return ("sign", op, self.sign())
        return self.atom()

    def atom(self):
        k, v = self.peek()
        if v == "(":
            self.take()
            e = self.arith()
            self.take(")")
            return e
        if v == "[":
            return self.lst()
        self.take()
        if k == "num":
            return ("num", float(v))
        if k == "inf":
            return ("num", _m.inf)
        if k == "ref":
            return ("ref", v[1:])
        if k == "name":
            if v.startswith("config."):
                return ("config", v[7:])
            if self.peek()[1] == "(":
                return self.call(v)
            if self.peek()[1] == "[":
                self.take()
                sl = {}
                while True:
                    d = self.take()[1]
                    self.take("=")
                    sl[d] = self.arith()
                    if self.peek()[1] == ",":
                        self.take()
                        continue
                    break
                self.take("]")
                return ("slice", v, sl)
            return ("name", v)
        raise SyntaxError(f"{k} {v} in {self.s!r}")

    def lst(self):
        self.take("[")
        items = []
        while self.peek()[1] != "]":
            items.append(self.arith())
            if self.peek()[1] == ",":
                self.take()
        self.take("]")
        return ("list", items)

    def call(self, f):
        self.take("(")
        args, kw = [], {}
        while self.peek()[1] != ")":
            if self.peek()[0] == "name" and self.peek(1)[1] == "=":
                k = self.take()[1]
                self.take("=")
                kw[k] = self.arith()
            else:
                args.append(self.arith())
            if self.peek()[1] == ",":
                self.take()
        self.take(")")
        return ("call", f, args, kw)

    def equation(self):
        l = self.arith()
        op = self.take()[1]
        assert op in ("<=", ">=", "=="), op
        r = self.arith()
        self.end()
        return (op, l, r)

    def end(self):
        if self.peek()[0] != "end":
            raise SyntaxError(f"trailing {self.peek()} in {self.s!r}")

    # conditions: and/or left to right, equal precedence; not binds tightest
    def where(self):
        e = self.cond()
        while self.peek()[0] == "name" and self.peek()[1].lower() in ("and", "or"):
            op = self.take()[1].lower()
            e = (op, e, self.cond())
        return e

    def cond(self):
        k, v = self.peek()
        if k == "name" and v.lower() == "not":
            self.take()
            return ("not", self.cond())
        if v == "[":
            save = self.i
            l = self.lst()
            if self.peek()[1] == "in":
                self.take()
                return ("in", l, self.take()[1])
            self.i = save
        if v == "(":
            save = self.i
            try:
                self.take("(")
                e = self.where()
                self.take(")")
                if self.peek()[1] not in ("<", ">", "<=", ">=", "==", "+", "-", "*", "/", "**"):
                    return e
            except SyntaxError:
                pass
            self.i = save
        l = self.arith()
        if self.peek()[1] in ("<", ">", "<=", ">=", "=="):
            op = self.take()[1]
            r = self.arith()
            return ("cmp", op, l, r)
        if l[0] == "name" and l[1].lower() in ("true", "false"):
            return ("bool", l[1].lower() == "true")
        return ("defined", l)


def parse_expr(s):
    p = P(s)
    e = p.arith()
    p.end()
    return e


def parse_eq(s):
    return P(s).equation()


def parse_where(s):
    p = P(s)
    e = p.where()
    p.end()
    return e


def refs_in(e):
    if isinstance(e, tuple):
        if e and e[0] == "ref":
            return {e[1]}
        return set().union(*[refs_in(x) for x in e]) if e else set()
    if isinstance(e, list):
        return set().union(*[refs_in(x) for x in e]) if e else set()
    if isinstance(e, dict):
        return set().union(*[refs_in(x) for x in e.values()]) if e else set()
    return set()


# ---------------------------------------------------------------- the model


def config_get(obj, path):
    for p in path.split("."):
        obj = obj[p] if isinstance(obj, dict) else getattr(obj, p)
    return obj


class Ref:
    """The optimisation problem stated by `math` (dict) on `inputs` (xr.Dataset)."""

    def __init__(self, inputs, math, build_config):
        self.math = math
        self.cfg = build_config
        self.coords = {d: [norm(x) for x in inputs[d].values] for d in inputs.dims if d in inputs.coords}
        self.inputs = {}
        for grp in ("parameters", "lookups"):
            for n, c in math[grp].items():
                if n in inputs:
                    self.inputs[n] = from_xr(inputs[n], n)
                    self.inputs[n].kind = inputs[n].dtype.kind
                else:
                    d = c.get("default", np.nan) if grp == "lookups" else np.nan
                    self.inputs[n] = Arr((), {} if null(d) else {(): norm(d)}, n)
                    self.inputs[n].kind = "b" if isinstance(d, bool) else "O"
        self.results = {}
        self.inactive_results = set()
        self.bounds, self.domains, self.constraints, self.objectives = {}, {}, {}, {}
        self.dm = self.inputs["definition_matrix"]

    def default(self, n):
        for g in ("parameters", "lookups", "variables", "global_expressions", "postprocessed"):
            if n in self.math.get(g, {}):
                d = self.math[g][n].get("default", np.nan)
                return None if null(d) else norm(d)
        return None

    # -------------------------------------------------- array algebra

    def envs(self, dims):
        dims = list(dims)
        for c in itertools.product(*[self.coords[d] for d in dims]):
            yield dict(zip(dims, c))

    def lift(self, f, *arrs):
        dims = []
        for a in arrs:
            if isinstance(a, Arr):
                dims += [d for d in a.dims if d not in dims]
        data = {}
        for env in self.envs(dims):
            v = f(*[a.get(env) if isinstance(a, Arr) else a for a in arrs])
            if v is not MISSING:
                data[tuple(env[d] for d in dims)] = v
        return Arr(dims, data)

    def fill(self, a, d):
        if d is None:
            return a
        out = dict(a.data)
        for env in self.envs(a.dims):
            k = tuple(env[x] for x in a.dims)
            if k not in out:
                out[k] = d
        return Arr(a.dims, out, a.name)

    def reduce(self, a, dims, f):
        keep = [d for d in a.dims if d not in dims]
        acc = {}
        for k, v in a.data.items():
            kk = tuple(x for d, x in zip(a.dims, k) if d in keep)
            acc[kk] = f(acc[kk], v) if kk in acc else v
        return Arr(keep, acc)

    # -------------------------------------------------- expressions

    def ev(self, e, cx):
        """cx: dict(where=Arr|None, subs, slices, post)."""
        k = e[0]
        if k == "num":
            return Arr((), {(): e[1]})
        if k == "name":
            return self.component(e[1], cx)
        if k == "sign":
            a = self.ev(e[2], cx)
            if e[1] == "-":
                return self.lift(lambda x: None if x is None else pmul(-1.0, x), a)
            return a
        if k == "bin":
            ops = [self.mask(self.ev(e[2], cx), cx), self.mask(self.ev(e[3], cx), cx)]
            return self.lift(lambda x, y: binop(e[1], x, y), *ops)
        if k == "ref":
            return self.ev(cx["subs"][e[1]], cx)
        if k == "slice":
            a = self.component(e[1], cx)
            return self.select(a, {d: self.slicer(v, cx) for d, v in e[2].items()})
        if k == "call":
            return self.call(e, cx)
        raise Unsupported(str(e))

    def mask(self, a, cx):
        w = cx.get("where")
        if w is None:
            return a
        return self.lift(lambda x, y: x if y is True else None, a, w)

    def slicer(self, v, cx):
        if v[0] == "ref":
            v = cx["slices"][v[1]]
        if v[0] == "name" and v[1] not in self.inputs and v[1] not in self.results and v[1] not in self.coords:
            return v[1]
        if v[0] == "list":
            return [self.slicer(x, cx) for x in v[1]]
        if v[0] == "num":
            return v[1]
        a = self.ev(v, {**cx, "where": None})
        if a.dims:
            return a
        return a.data.get(())

    def select(self, a, sl):
        for d, v in sl.items():
            if isinstance(v, list):
                a = Arr(a.dims, {k: x for k, x in a.data.items() if k[a.dims.index(d)] in v})
                continue
            i = a.dims.index(d)
            if isinstance(v, Arr):  # per-index label
                rest = [x for x in a.dims if x != d]
                dims = rest + [x for x in v.dims if x not in rest]
                data = {}
                for env in self.envs(dims):
                    lab = v.get(env)
                    if lab is None:
                        continue
                    x = a.get({**env, d: lab})
                    if x is not None:
                        data[tuple(env[q] for q in dims)] = x
                a = Arr(dims, data)
                continue
            a = Arr([x for x in a.dims if x != d], {k[:i] + k[i + 1:]: x for k, x in a.data.items() if k[i] == v})
        return a

    def component(self, n, cx):
        if n in self.coords:
            return Arr((n,), {(x,): x for x in self.coords[n]}, n)
        if n in self.results:
            a = self.results[n]
        elif n in self.inputs:
            a = self.inputs[n]
        elif n in self.math.get("dimensions", {}):
            return Arr((), {}, n)
        else:
            raise KeyError(n)
        return self.fill(Arr(a.dims, a.data, n), self.default(n))

    def over(self, e):
        return [x[1] for x in e[1]] if e[0] == "list" else [e[1]]

    def call(self, e, cx):
        _, f, args, kw = e
        un = {**cx, "where": None}
        if f == "sum":
            a = self.ev(args[0], cx)
            ov = self.over(kw["over"] if "over" in kw else args[1])
            return self.reduce(a, ov, padd)
        if f == "get_val_at_index":
            (d, v), = kw.items()
            i = int(self.ev(v, un).data[()])
            return Arr((), {(): self.coords[d][i]})
        if f == "roll":
            a = self.ev(args[0], un)
            for d, v in kw.items():
                n = int(self.ev(v, un).data[()])
                lab, i = self.coords[d], a.dims.index(d)
                a = Arr(a.dims, {k[:i] + (lab[(lab.index(k[i]) + n) % len(lab)],) + k[i + 1:]: x for k, x in a.data.items()})
            return a
        if f == "default_if_empty":
            a = self.ev(args[0], cx)
            d = self.ev(kw.get("default", args[1] if len(args) > 1 else None), cx).data.get(())
            return self.fill(a, d)
        if f == "where":
            a, c = self.ev(args[0], cx), self.ev(args[1], cx)
            return self.lift(lambda x, y: x if y not in (None, 0, 0.0, False) else None, a, c)
        if f == "reduce_carrier_dim":
            a = self.ev(args[0], cx)
            c = self.inputs["carrier_" + args[1][1]] if args[1][0] == "name" else None
            a = self.lift(lambda x, y: x if y not in (None, 0.0, False) else None, a, c)
            return self.reduce(a, ["carriers"], padd)
        if f == "select_from_lookup_arrays":
            a = self.ev(args[0], cx)
            return self.lookup(a, {d: self.inputs[v[1]] for d, v in kw.items()})
        if f == "group_sum":
            a = self.ev(args[0], un)
            g = self.inputs[args[1][1]] if args[1][0] == "name" else None
            d = args[2][1] if len(args) > 2 else kw["group_dim"][1]
            return self.group(a, g, d)
        if f == "sum_next_n":
            a = self.ev(args[0], cx)
            d, n = args[1][1], int(self.ev(args[2], un).data[()])
            lab, i = self.coords[d], a.dims.index(d)
            out = {}
            for k, x in a.data.items():
                p = lab.index(k[i])
                for q in range(max(0, p - n + 1), p + 1):
                    kk = k[:i] + (lab[q],) + k[i + 1:]
                    out[kk] = padd(out[kk], x) if kk in out else x
            return Arr(a.dims, out)
        raise Unsupported(f)

    def lookup(self, a, tabs):
        dims = list(a.dims)
        for t in tabs.values():
            dims += [d for d in t.dims if d not in dims]
        data = {}
        for env in self.envs(dims):
            e2 = dict(env)
            ok = True
            for d, t in tabs.items():
                lab = t.get(env)
                if lab is None:
                    ok = False
                    break
                e2[d] = lab
            if ok:
                x = a.data.get(tuple(e2[q] for q in a.dims))
                if x is not None:
                    data[tuple(env[q] for q in dims)] = x
        return Arr(dims, data)

    def group(self, a, g, d):
        keep = [x for x in a.dims if x not in g.dims]
        out = {}
        dims = list(a.dims) + [x for x in g.dims if x not in a.dims]
        for env in self.envs(dims):
            lab, x = g.get(env), a.get(env)
            if lab is None or x is None:
                continue
            kk = tuple(env[q] for q in keep) + (lab,)
            out[kk] = padd(out[kk], x) if kk in out else x
        return Arr(keep + [d], out)

    # -------------------------------------------------- conditions

    def wh(self, e, refs=True):
        """Boolean array (full over its dims; only True keys stored)."""
        k = e[0]
        if k == "bool":
            return Arr((), {(): True} if e[1] else {})
        if k == "not":
            return self.lift(lambda x: True if x is None else None, self.wh(e[1]))
        if k == "and":
            return self.lift(lambda x, y: True if x and y else None, self.wh(e[1]), self.wh(e[2]))
        if k == "or":
            return self.lift(lambda x, y: True if x or y else None, self.wh(e[1]), self.wh(e[2]))
        if k == "defined":
            return self.defined(e[1])
        if k == "in":
            vals = []
            for x in e[1][1]:
                if x[0] == "config":
                    vals.append(norm(config_get(self.cfg, x[1])))
                else:
                    vals.append(x[1])
            d = e[2]
            return Arr((d,), {(x,): True for x in self.coords.get(d, []) if x in vals}) if d in self.coords else Arr((), {})
        if k == "cmp":
            return self.compare(e)
        raise Unsupported(str(e))

    def defined(self, e):
        if e[0] == "call":
            f, args, kw = e[1:]
            if f == "any":
                a = self.defined(args[0])
                ov = self.over(kw["over"])
                return self.reduce(a, ov, lambda x, y: True)
            if f == "defined":
                within, how = kw["within"][1], kw["how"][1]
                sel = {d: ([x[1] for x in v[1]] if v[0] == "list" else [v[1]]) for d, v in kw.items() if d not in ("within", "how")}
                core = self.reduce(self.dm_true(), [d for d in self.dm.dims if d not in sel and d != within], lambda x, y: True)
                out = {}
                for lab in self.coords[within]:
                    combos = [dict(zip(sel, c)) for c in itertools.product(*sel.values())]
                    got = [core.get({**c, within: lab}) is True for c in combos]
                    if (all if how == "all" else any)(got):
                        out[(lab,)] = True
                return Arr((within,), out)
            raise Unsupported(f)
        if e[0] == "config":
            return Arr((), {(): True} if config_get(self.cfg, e[1]) else {})
        n = e[1]
        if n in self.inputs:
            a = self.inputs[n]
            if a.kind == "b":
                return Arr(a.dims, {k: True for k, v in a.data.items() if v is True})
            return Arr(a.dims, {k: True for k, v in a.data.items() if not (isinstance(v, float) and _m.isinf(v))})
        if n in self.results:
            a = self.results[n]
            return Arr(a.dims, {k: True for k in a.data})
        if n in self.inactive_results:
            return Arr((), {})
        raise Unsupported(f"where reference {n}")

    def dm_true(self):
        return Arr(self.dm.dims, {k: True for k, v in self.dm.data.items() if v not in (False, 0.0)})

    def wval(self, e):
        """Values inside comparisons: inputs with their default."""
        k = e[0]
        if k == "num":
            return Arr((), {(): e[1]})
        if k == "config":
            return Arr((), {(): norm(config_get(self.cfg, e[1]))})
        if k == "sign":
            return self.lift(lambda x: None if x is None else (-x if e[1] == "-" else x), self.wval(e[2]))
        if k == "bin":
            return self.lift(lambda x, y: binop(e[1], x, y), self.wval(e[2]), self.wval(e[3]))
        if k == "call":
            f, args, kw = e[1:]
            if f == "get_val_at_index":
                return self.call(e, {})
            if f == "sum":
                return self.reduce(self.wval(args[0]), self.over(kw["over"]), padd)
            raise Unsupported(f)
        n = e[1]
        if n in self.coords:
            return Arr((n,), {(x,): x for x in self.coords[n]}, n)
        if n in self.inputs:
            return self.fill(self.inputs[n], self.default(n))
        if n.lower() in ("true", "false"):
            return Arr((), {(): n.lower() == "true"})
        if n in self.math.get("dimensions", {}):
            return Arr((), {})
        return Arr((), {(): n})  # a plain string

    def compare(self, e):
        op = e[1]

        def f(x, y):
            if x is None or y is None:
                return None
            if isinstance(x, pd.Timestamp) and isinstance(y, str):
                y = pd.Timestamp(y)
            if op == "==":
                if isinstance(x, bool) != isinstance(y, bool) and isinstance(x, (bool, float)) and isinstance(y, (bool, float)):
                    return True if float(x) == float(y) else None
                return True if type(x) is type(y) and x == y else None
            r = {"<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y}[op]()
            return True if r else None

        return self.lift(f, self.wval(e[2]), self.wval(e[3]))

    # -------------------------------------------------- components

    def top_where(self, foreach, where):
        extra = [d for d in foreach if d not in self.dm.dims]
        if any(d not in self.coords for d in extra):
            return Arr(foreach, {})
        full = self.dm_true()
        w = self.wh(parse_where(where))
        arr = self.lift(lambda x, y: True if x and y else None, full, w)
        return self.project(arr, foreach)

    def project(self, w, foreach):
        """Index combinations of `foreach` for which some combination of the other dims holds."""
        out = {}
        have = [d for d in foreach if d in w.dims]
        miss = [d for d in foreach if d not in w.dims]
        got = {tuple(k[w.dims.index(d)] for d in have) for k in w.data}
        for env in self.envs(foreach):
            if tuple(env[d] for d in have) in got:
                out[tuple(env[d] for d in foreach)] = True
        return Arr(foreach, out)

    def equations(self, comp, is_eq):
        """All (conditions, expression, subs, slices) combinations."""
        out = []
        for eq in comp["equations"]:
            p = parse_eq(eq["expression"]) if is_eq else parse_expr(eq["expression"])
            subs_all = comp.get("sub_expressions") or {}
            sl_all = comp.get("slices") or {}
            names = refs_in(p)
            subn = sorted(n for n in names if n in subs_all)
            for choice in itertools.product(*[subs_all[n] for n in subn]):
                subs = {n: parse_expr(c["expression"]) for n, c in zip(subn, choice)}
                snames = sorted({n for n in names | set().union(*[refs_in(s) for s in subs.values()], set()) if n in sl_all and n not in subn})
                for sch in itertools.product(*[sl_all[n] for n in snames]):
                    sls = {n: parse_expr(c["expression"]) for n, c in zip(snames, sch)}
                    wheres = [eq.get("where", "True")] + [c.get("where", "True") for c in choice] + [c.get("where", "True") for c in sch]
                    out.append((wheres, p, subs, sls))
        return out

    def build_component(self, comp, is_eq):
        foreach = comp.get("foreach") or []
        top = self.top_where(foreach, comp.get("where", "True"))
        built = {}
        if not top.data:
            return Arr(foreach, {})
        for wheres, p, subs, sls in self.equations(comp, is_eq):
            w = top
            for s in wheres:
                w = self.lift(lambda x, y: True if x and y else None, w, self.wh(parse_where(s)))
            w = self.project(w, foreach)
            if not w.data:
                continue
            if set(w.data) & set(built):
                raise Overlap(str(wheres))
            cx = {"where": w, "subs": subs, "slices": sls}
            if is_eq:
                op, l, r = p
                L, R = self.ev(l, cx), self.ev(r, cx)
                for k in w.data:
                    env = dict(zip(foreach, k))
                    x, y = L.get(env), R.get(env)
                    if x is None or y is None:
                        raise Incomplete(str((k, p)))
                    built[k] = (op, x, y)
            else:
                a = self.ev(p, cx)
                for k in w.data:
                    x = a.get(dict(zip(foreach, k)))
                    if x is None:
                        raise Incomplete(str((k, p)))
                    built[k] = x
        return Arr(foreach, built)

    def bound(self, b, env):
        if isinstance(b, str):
            try:
                return float(b)
            except ValueError:
                pass
            v = self.inputs[b].get(env)
            if v is None:
                v = self.default(b)
        else:
            v = float(b)
        if v is None or _m.isinf(v):
            return None
        return v

    def build(self, skip=()):
        m = self.math
        order = lambda g: sorted(((n, c) for n, c in m[g].items()), key=lambda kv: kv[1].get("order", 0))
        for n, c in order("variables"):
            if not c.get("active", True):
                self.inactive_results.add(n)
                continue
            foreach = c.get("foreach") or []
            w = self.top_where(foreach, c.get("where", "True"))
            self.results[n] = Arr(foreach, {k: Poly.var((n, k)) for k in w.data}, n)
            self.domains[n] = c.get("domain", "real")
            self.bounds[n] = {k: tuple(self.bound(c["bounds"][s], dict(zip(foreach, k))) for s in ("min", "max")) for k in w.data}
        for n, c in order("global_expressions"):
            if not c.get("active", True):
                self.inactive_results.add(n)
                continue
            self.results[n] = self.build_component(c, False)
        for n, c in order("constraints"):
            if c.get("active", True):
                self.constraints[n] = self.build_component(c, True)
        for n, c in order("objectives"):
            if c.get("active", True):
                self.objectives[n] = self.build_component({**c, "foreach": []}, False)
        return self


# ---------------------------------------------------------------- comparison with a built Pyomo model


def plain_math(model):
    """The effective math of a model as a plain dict."""
    return model.math.build.model_dump()


def var_ids(backend):
    """id(pyomo variable) -> (name, label tuple)."""
    out = {}
    for n, da in backend.variables.data_vars.items():
        for k, v in cells(da).items():
            out[id(v)] = (n, k)
    return out


def cells(da):
    dims = da.dims
    labels = [[norm(x) for x in da[d].values] for d in dims]
    vals = da.values
    out = {}
    for ix in np.ndindex(*vals.shape):
        v = vals[ix]
        if isinstance(v, np.ndarray):
            v = v.item()
        if v is None or (isinstance(v, float) and _m.isnan(v)):
            continue
        out[tuple(labels[i][j] for i, j in enumerate(ix))] = v
    return out


def transposed(da, foreach):
    return da.transpose(*foreach) if da.dims and set(da.dims) == set(foreach) else da


def to_poly(expr, ids):
    from pyomo.core.expr.numvalue import is_fixed, native_numeric_types, value
    from pyomo.repn import generate_standard_repn

    if isinstance(expr, (int, float, np.floating, np.integer)) or type(expr) in native_numeric_types:
        return Poly({(): float(expr)})
    r = generate_standard_repn(expr, compute_values=True, quadratic=True)
    assert r.nonlinear_expr is None, "nonlinear"
    t = {(): float(value(r.constant))}
    for c, v in zip(r.linear_coefs, r.linear_vars):
        t[(ids[id(v)],)] = t.get((ids[id(v)],), 0.0) + float(value(c))
    for c, (a, b) in zip(r.quadratic_coefs, r.quadratic_vars):
        k = tuple(sorted((ids[id(a)], ids[id(b)]), key=str))
        t[k] = t.get(k, 0.0) + float(value(c))
    return Poly(t)


def close(a, b, tol=1e-7):
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and isinstance(b, float) and (_m.isinf(a) or _m.isinf(b)):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def poly_close(a, b):
    a, b = Poly.of(a), Poly.of(b)
    return all(close(a.t.get(k, 0.0), b.t.get(k, 0.0)) for k in set(a.t) | set(b.t))


def con_poly(con, ids):
    """(op, poly) with body-bound op 0."""
    from pyomo.core.expr.numvalue import value

    body = to_poly(con.body, ids)
    lo = None if con.lower is None else value(con.lower)
    up = None if con.upper is None else value(con.upper)
    if lo is not None and up is not None and lo == up:
        return "==", padd(body, lo, -1.0)
    if up is not None and lo is None:
        return "<=", padd(body, up, -1.0)
    if lo is not None and up is None:
        return ">=", padd(body, lo, -1.0)
    return "range", (body, lo, up)


def con_equal(ref, got):
    op, l, r = ref
    d = padd(l, r, -1.0)
    gop, gp = got
    if op == "==":
        return gop == "==" and (poly_close(d, gp) or poly_close(pmul(-1.0, d), gp))
    if op == "<=":
        return (gop == "<=" and poly_close(d, gp)) or (gop == ">=" and poly_close(pmul(-1.0, d), gp))
    return (gop == ">=" and poly_close(d, gp)) or (gop == "<=" and poly_close(pmul(-1.0, d), gp))


def unbounded(x):
    return None if x is None or _m.isinf(x) or _m.isnan(x) else x


def compare(b, model, ref, what=("variables", "bounds", "global_expressions", "constraints", "objectives"), tag=""):
    """Reports every difference between the built model and the reference through b.check."""
    be = model.backend
    ids = var_ids(be)
    for grp, names in (("variables", list(ref.bounds)), ("global_expressions", [n for n in ref.results if n not in ref.bounds]),
                       ("constraints", list(ref.constraints)), ("objectives", list(ref.objectives))):
        if grp not in what:
            continue
        built = set(getattr(be, grp).data_vars)
        b.check(f"{tag}{grp}: nothing is built that the math does not declare active", not (built - set(names) - ref.inactive_results), sorted(built - set(names)))
        b.check(f"{tag}{grp}: every declared component is there", not (set(names) - built), sorted(set(names) - built))
        for n in names:
            if n not in built:
                continue
            want = (ref.results.get(n) if grp in ("variables", "global_expressions") else getattr(ref, grp)[n])
            da = transposed(getattr(be, grp)[n], want.dims)
            got = cells(da)
            if set(got) != set(want.data):
                miss, extra = set(want.data) - set(got), set(got) - set(want.data)
                b.check(f"{tag}{grp}:{n} exists exactly where its conditions hold", False, {"missing": sorted(map(str, miss))[:4], "extra": sorted(map(str, extra))[:4]})
                continue
            b.check(f"{tag}{grp}:{n} exists exactly where its conditions hold", True)
            if grp == "variables" and "bounds" in what:
                bad = []
                for k, v in got.items():
                    lo, up = unbounded(v.lb), unbounded(v.ub)
                    wlo, wup = ref.bounds[n][k]
                    if ref.domains[n] == "binary":
                        wlo, wup = max(0.0, wlo or 0.0), min(1.0, 1.0 if wup is None else wup)
                    if not (close(lo, wlo) and close(up, wup)):
                        bad.append((k, (lo, up), (wlo, wup)))
                    dom = "integer" if v.is_integer() else "binary" if v.is_binary() else "real"
                    if dom != ref.domains[n]:
                        bad.append((k, dom, ref.domains[n]))
                b.check(f"{tag}variables:{n} has its declared bounds and domain", not bad, str(bad[:3]))
            elif grp == "global_expressions":
                bad = [(k, repr(w), repr(g)) for k, w in want.data.items() if not poly_close(w, g := to_poly(getattr(got[k], "expr", got[k]), ids))]
                b.check(f"{tag}global_expressions:{n} is the stated arithmetic", not bad, str(bad[:2])[:600])
            elif grp == "constraints":
                bad = []
                for k, w in want.data.items():
                    c = got[k]
                    if not hasattr(c, "body"):
                        bad.append((k, "trivial", str(c)))
                        continue
                    g = con_poly(c, ids)
                    if not con_equal(w, g):
                        bad.append((k, f"want {w[1]!r} {w[0]} {w[2]!r}"[:250], f"got {g!r}"[:250], f"difference {simp(padd(padd(w[1], w[2], -1.0), g[1], -1.0))!r}"[:250] if g[0] != "range" else ""))
                b.check(f"{tag}constraints:{n} is the stated relation", not bad, str(bad[:2])[:800])
            elif grp == "objectives":
                bad = [(repr(w)[:300], repr(g)[:300]) for k, w in want.data.items() if not poly_close(w, g := to_poly(got[k].expr, ids))]
                b.check(f"{tag}objectives:{n} is the stated arithmetic", not bad, str(bad[:2])[:800])


def reference(model, inputs=None):
    return Ref(model.inputs if inputs is None else inputs, plain_math(model), model.config.build).build()
