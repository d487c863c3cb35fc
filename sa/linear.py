"""Linear-inequality abstract domain over the symbolic integers of a trace.

Facts are the comparisons already taken on the trace plus the declared
non-negativity of sizes; a comparison that they decide does not split the trace.
Entailment is decided by Fourier-Motzkin elimination.
"""
from math import gcd
from . import terms
from .terms import Term


def norm(c):
    """integer constraint sum >= 0, gcd-tightened; c: {mono: int}"""
    g = 0
    for m, k in c.items():
        if m != ():
            g = gcd(g, k)
    if g > 1:
        c = {m: (k // g) for m, k in c.items()}      # floor on the constant: integer tightening
    return {m: k for m, k in c.items() if k}


def infeasible(cs, limit=4000):
    """True when the conjunction of `c >= 0` has no integer solution (incomplete: False when unsure)"""
    work = []
    for c in cs:
        c = norm(dict(c))
        if not any(m != () for m in c):
            if c.get((), 0) < 0:
                return True
            continue
        work.append(c)
    while True:
        seen = {}
        for c in work:
            key = tuple(sorted(((tuple(t._id for t in m), k) for m, k in c.items() if m != ()), key=repr))
            if key not in seen or c.get((), 0) < seen[key].get((), 0):
                seen[key] = c
        work = list(seen.values())
        vs = {}
        for c in work:
            for m, k in c.items():
                if m != ():
                    a = vs.setdefault(m, [0, 0])
                    a[k > 0] += 1
        if not vs:
            return False
        v = min(vs, key=lambda m: vs[m][0] * vs[m][1])
        pos = [c for c in work if c.get(v, 0) > 0]
        neg = [c for c in work if c.get(v, 0) < 0]
        rest = [c for c in work if not c.get(v, 0)]
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        for a in pos:
            for b in neg:
                ka, kb = a[v], -b[v]
                c = {}
                for m, k in a.items():
                    c[m] = c.get(m, 0) + k * kb
                for m, k in b.items():
                    c[m] = c.get(m, 0) + k * ka
                c.pop(v, None)
                c = norm(c)
                if not any(m != () for m in c):
                    if c.get((), 0) < 0:
                        return True
                    continue
                rest.append(c)
        work = rest


def neg_of(d):
    return {m: -k for m, k in d.items()}


def plus(d, n):
    d = dict(d)
    d[()] = d.get((), 0) + n
    return d


class Linear:
    def __init__(self, prog):
        self.prog = prog
        self.nonneg = set()
        self.extra = []          # constraints c >= 0 added by the harness (on the current trace)
        self.memo = {}
        prog.linear = self
        prog.eq_facts, prog.lt_facts = self.eq, self.lt
        old = prog.term_binop

        def binop(op, a, b):
            if op == "//" and type(a) is Term and type(b) is int and b > 0:
                p = terms.poly(a)
                if all(type(k) is int and k % b == 0 for k in p.values()):
                    return terms.poly_term({m: k // b for m, k in p.items()})
            if op == "%" and type(a) is Term and terms.numeric(a) and type(b) is int and b > 0:
                p = terms.poly(a)
                if all(type(k) is int and k % b == 0 for k in p.values()):
                    return 0
            return old(op, a, b)
        prog.term_binop = binop

    def sym(self, name, nonneg=True):
        t = Term("sym", name, ty=int)
        if nonneg:
            self.nonneg.add(t)
        return t

    def facts(self):
        fs, ne = list(self.extra), []
        for k, v in self.prog.assumptions.items():
            if type(k) is Term:
                if k._op == "lt0":
                    p = terms.poly(k._args[0])
                    fs.append(plus(neg_of(p), -1) if v == 0 else p)
                elif k._op == "eq0":
                    p = terms.poly(k._args[0])
                    if v == 0:
                        fs += [p, neg_of(p)]
                    else:
                        ne.append(p)
        return fs, ne

    def vars(self, d):
        out = set()
        for m in d:
            out.update(m)
        return out

    def base(self, fs):
        vs = set()
        ms = set()
        for c in fs:
            vs |= self.vars(c)
            ms.update(c)
        out = [{(v,): 1} for v in vs if v in self.nonneg]
        # products of non-negative quantities are non-negative
        out += [{m: 1} for m in ms if len(m) > 1 and all(t in self.nonneg for t in m)]
        return out

    def entails(self, goal):
        """goal: constraint c >= 0"""
        if any(type(k) is not int for k in goal.values()):
            return False
        if all(k >= 0 and all(t in self.nonneg for t in m) for m, k in goal.items()):
            return True
        key = (tuple(sorted(((tuple(t._id for t in m), k) for m, k in goal.items()))),
               tuple((k._id if type(k) is Term else None, v) for k, v in self.prog.assumptions.items() if type(k) is Term and k._op in ("lt0", "eq0")),
               len(self.extra))
        if key in self.memo:
            return self.memo[key]
        fs, ne = self.facts()
        fs = [f for f in fs if all(type(k) is int for k in f.values())]
        fs = fs + [plus(neg_of(goal), -1)]
        r = infeasible(fs + self.base(fs))
        if not r:
            for p in ne:                          # x != 0 : case split
                if all(infeasible(fs + [c] + self.base(fs + [c])) for c in (plus(p, -1), plus(neg_of(p), -1))):
                    r = True
                    break
        self.memo[key] = r
        return r

    def lt(self, d):
        if self.entails(plus(neg_of(d), -1)):
            return True
        if self.entails(d):
            return False
        return None

    def eq(self, d):
        if self.entails(d) and self.entails(neg_of(d)):
            return True
        if self.entails(plus(d, -1)) or self.entails(plus(neg_of(d), -1)):
            return False
        return None

    def equal(self, a, b):
        if terms.same(a, b):
            return True
        if not (terms.numeric(a) and terms.numeric(b)):
            return False
        return self.eq(terms.diff(a, b)) is True
