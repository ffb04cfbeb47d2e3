"""Products as uninterpreted terms.

Non-linear arithmetic with quantifiers is what z3 gives up on.  Obligations of contracts rarely need more about a
product than: equal factors (in any order) give equal products.  A product x1*...*xk of non-constant factors is
replaced by P(L(x1)+...+L(xk)), where L and P are uninterpreted.  This is a sound weakening: L can be read as an
injection of the reals into a linearly independent set, so that the sum determines the multiset of factors, and P as
the product of that multiset.  Division x/y is x times INV(y), with INV(y) uninterpreted where y = 0 (there the value of a
quotient is never used: it is marked missing or infinite).  True facts about the products that occur (signs, factors 0
and 1) are added as ground axioms.  Only `unsat` is believed; anything else is decided by the exact formulas."""
from __future__ import annotations

import z3

RS = z3.RealSort()
L = z3.Function("nl_L", RS, RS)
P = z3.Function("nl_P", RS, RS)
INV = z3.Function("nl_INV", RS, RS)


class Abstraction:
    def __init__(self):
        self.cache, self.keep, self.axioms, self.seen, self.found = {}, [], [], set(), False
        self.qdepth = 0

    def __call__(self, t):
        return self.tr(t)

    def tr(self, t):
        k = t.get_id()
        if k in self.cache:
            return self.cache[k]
        self.keep.append(t)
        out = self._tr(t)
        self.keep.append(out)
        self.cache[k] = out
        return out

    def _tr(self, t):
        if z3.is_quantifier(t):
            n = t.num_vars()
            self.qdepth += 1
            vs = [z3.Const(f"nlq!{self.qdepth}!{i}!{t.var_name(i)}", t.var_sort(i)) for i in range(n)]
            body = z3.substitute_vars(t.body(), *reversed(vs))
            before, seen = len(self.axioms), set(self.seen)
            b = self.tr(body)
            facts = self.axioms[before:]  # true of every value of the bound variables: kept inside
            del self.axioms[before:]
            self.seen = seen
            if b.eq(body):
                return t
            if t.is_forall():
                return z3.ForAll(vs, z3.Implies(z3.And(*facts), b) if facts else b)
            if t.is_exists():
                return z3.Exists(vs, z3.And(b, *facts))
            return t
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        ch = [self.tr(c) for c in t.children()]
        d = t.decl().kind()
        if d == z3.Z3_OP_MUL and t.sort() == RS:
            return self.product(ch)
        if d == z3.Z3_OP_DIV:
            return self.product([ch[0], self.inv(ch[1])])
        if t.decl().name() == "POW" and len(ch) == 2:
            a, b = ch
            r = t.decl()(a, b)
            self.fact(r, z3.Implies(a > 0, r > 0), z3.Implies(a >= 0, r >= 0), z3.Implies(b == 0, r == 1), z3.Implies(b == 1, r == a),
                      z3.Implies(z3.And(a > 1, b > 0), r > 1), z3.Implies(a == 1, r == 1))
            return r
        if all(a.eq(b) for a, b in zip(ch, t.children())):
            return t
        if d == z3.Z3_OP_AND:
            return z3.And(*ch)
        if d == z3.Z3_OP_OR:
            return z3.Or(*ch)
        return t.decl()(*ch)

    def inv(self, y):
        c = z3.simplify(y)
        if z3.is_rational_value(c) and c.as_fraction() != 0:
            return z3.RealVal(1 / c.as_fraction())
        r = INV(y)
        self.found = True
        self.fact(r, z3.Implies(y > 0, r > 0), z3.Implies(y < 0, r < 0), z3.Implies(y == 1, r == 1))
        return r

    def fact(self, t, *fs):
        if t.get_id() not in self.seen:
            self.seen.add(t.get_id())
            self.keep.append(t)
            self.axioms.extend(fs)

    def factors(self, xs):
        k, out = 1, []
        for x in xs:
            c = z3.simplify(x) if x.num_args() < 3 else x
            if z3.is_rational_value(c):
                k = k * c.as_fraction()
            elif z3.is_app(x) and x.decl().eq(P):
                out.extend(self.prod_of[x.get_id()])
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_rational_value(x.arg(0)):
                k2, o2 = self.factors(list(x.children()))
                k, out = k * k2, out + o2
            else:
                out.append(x)
        return k, out

    prod_of: dict = {}

    def product(self, xs, facts=True):
        k, fs = self.factors(xs)
        if k == 0:
            return z3.RealVal(0)
        kk = z3.RealVal(k)
        if not fs:
            return kk
        if len(fs) == 1:
            return fs[0] if k == 1 else kk * fs[0]
        fs = sorted(fs, key=lambda x: x.get_id())
        self.found = True
        p = P(z3.Sum(*[L(f) for f in fs]) if len(fs) > 1 else L(fs[0]))
        self.prod_of[p.get_id()] = fs
        self.keep.append(p)
        if facts and p.get_id() not in self.seen and len(fs) <= 5:
            self.seen.add(p.get_id())
            self.axioms.append(z3.Implies(z3.And(*[f > 0 for f in fs]), p > 0))
            self.axioms.append(z3.Or(*[f == 0 for f in fs]) == (p == 0))
            if len(fs) == 2:
                a, b = fs
                self.axioms.append(z3.Implies(z3.And(a > 0, b < 0), p < 0))
                self.axioms.append(z3.Implies(z3.And(a < 0, b > 0), p < 0))
                self.axioms.append(z3.Implies(z3.And(a < 0, b < 0), p > 0))
            for i, f in enumerate(fs):
                rest = fs[:i] + fs[i + 1:]
                self.axioms.append(z3.Implies(f == 1, p == self.product(rest)))
        return p if k == 1 else kk * p
