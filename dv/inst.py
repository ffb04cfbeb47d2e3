"""Ground instantiation, for obligations on which z3's own quantifier reasoning gives up.

Every quantified subformula Q is named by a Boolean p.  p => (instances of) Q and not p => (instances of) not Q are
added: the witness side with fresh constants, the universal side at the ground index terms that occur in the places of
the bound variables.  Each added clause follows from p being the truth value of Q, so `unsat` of the result is `unsat`
of the input; no other answer is used."""
from __future__ import annotations

import itertools
import time

import z3


class Inst:
    def __init__(self, formulas, cap=6000):
        self.cap, self.n = cap, 0
        self.proxy, self.ground, self.todo = {}, [], []
        self.keep, self.cache = [], {}
        self.parent, self.terms, self.termset = {}, {}, {}
        self.done = set()
        self.count = 0
        self.univ = []  # (guard, vars, body, keys)
        for f in formulas:
            self.add(f)

    # --- classes of argument positions
    def find(self, k):
        while self.parent.get(k, k) != k:
            k = self.parent[k]
        return k

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return
        self.parent[b] = a
        for t in self.terms.pop(b, []):
            self.add_term(a, t)
        self.termset.pop(b, None)

    def add_term(self, k, t):
        k = self.find(k)
        s = self.termset.setdefault(k, set())
        if t.get_id() not in s:
            s.add(t.get_id())
            self.keep.append(t)
            self.terms.setdefault(k, []).append(t)

    def scan(self, t, seen):
        """Record ground index terms of a quantifier-free formula."""
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            self.keep.append(x)
            if not z3.is_app(x):
                continue
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                for i in range(x.num_args()):
                    a = x.arg(i)
                    if a.sort() == z3.IntSort():
                        self.add_term((d.name(), i), a)
            stack.extend(x.children())

    def positions(self, body, vs):
        """Union the positions in which each bound variable occurs; returns a class per variable (None: nowhere)."""
        ids = {v.get_id(): i for i, v in enumerate(vs)}
        out = [None] * len(vs)
        seen, stack = set(), [body]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if not z3.is_app(x):
                continue
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                for i in range(x.num_args()):
                    j = ids.get(x.arg(i).get_id())
                    if j is not None:
                        k = (d.name(), i)
                        if out[j] is None:
                            out[j] = k
                        else:
                            self.union(out[j], k)
            stack.extend(x.children())
        return out

    # --- naming quantified subformulas
    def strip(self, t):
        k = t.get_id()
        if k in self.cache:
            return self.cache[k]
        self.keep.append(t)
        if z3.is_quantifier(t):
            out = self.name(t)
        elif not z3.is_app(t) or t.num_args() == 0:
            out = t
        else:
            ch = [self.strip(c) for c in t.children()]
            if all(a.eq(b) for a, b in zip(ch, t.children())):
                out = t
            elif t.decl().kind() == z3.Z3_OP_AND:
                out = z3.And(*ch)
            elif t.decl().kind() == z3.Z3_OP_OR:
                out = z3.Or(*ch)
            else:
                out = t.decl()(*ch)
        self.keep.append(out)
        self.cache[k] = out
        return out

    def name(self, q):
        p = self.proxy.get(q.get_id())
        if p is not None:
            return p
        if q.is_lambda():
            raise z3.Z3Exception("lambda")
        self.count += 1
        p = z3.Bool(f"q!{self.count}")
        self.proxy[q.get_id()] = p
        self.keep.append(q)
        vs = [z3.Const(f"iq!{self.count}!{i}", q.var_sort(i)) for i in range(q.num_vars())]
        body = z3.substitute_vars(q.body(), *reversed(vs))
        self.todo.append((p, q.is_forall(), vs, body))
        return p

    def add(self, f):
        g = self.strip(f)
        self.ground.append(g)
        self.scan(g, self.done)

    def expand(self):
        """Process named quantifiers: witness side now, universal side registered."""
        while self.todo:
            p, is_all, vs, body = self.todo.pop()
            keys = self.positions(body, vs)
            sk = [z3.Const(f"sk!{self.count}!{self.n}!{i}", v.sort()) for i, v in enumerate(vs)]
            self.n += 1
            for k, c in zip(keys, sk):
                if k is not None:
                    self.add_term(k, c)
            w = z3.substitute(body, *zip(vs, sk))
            self.add(z3.Or(p, z3.Not(w)) if is_all else z3.Or(z3.Not(p), w))
            self.univ.append((p, is_all, vs, body, keys, set()))

    def instantiate(self):
        new = 0
        for p, is_all, vs, body, keys, used in list(self.univ):
            pools = []
            for v, k in zip(vs, keys):
                if k is None:
                    pools.append([z3.IntVal(0)] if v.sort() == z3.IntSort() else [])
                else:
                    pools.append(list(self.terms.get(self.find(k), [])))
            for combo in itertools.product(*pools):
                key = tuple(t.get_id() for t in combo)
                if key in used:
                    continue
                used.add(key)
                b = z3.substitute(body, *zip(vs, combo))
                self.add(z3.Or(z3.Not(p), b) if is_all else z3.Or(p, z3.Not(b)))
                new += 1
                if new > self.cap:
                    return new
        return new


def unsat(formulas, seconds=20.0, rounds=3, before_check=None):
    """True only if the conjunction is unsatisfiable."""
    t0 = time.time()
    try:
        I = Inst(formulas)
        for _ in range(rounds):
            I.expand()
            n = I.instantiate()
            left = seconds - (time.time() - t0)
            if left <= 0:
                return False
            s = z3.Solver()
            s.set("timeout", int(max(left, 0.2) * 1000))
            s.add(*(before_check(I.ground) if before_check else I.ground))
            r = s.check()
            if r == z3.unsat:
                return True
            if n == 0 and not I.todo:
                return False
    except z3.Z3Exception:
        return False
    return False
