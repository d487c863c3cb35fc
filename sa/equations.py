"""Equations between results of merges: (rule, construct, told, build, oracle) over symbolic tensors."""
import itertools
from fractions import Fraction
from .methodlib import *
from .tensorlib import add, mul, num, same, substitute, T, div

WHERE = "sd_mecha/extensions/builtin/merge_methods"


def finite(e):
    """e when no value in it is infinite or not a number"""
    if not terms.is_term(e):
        return e
    for _ in range(8):
        sub = {}
        for t in terms.walk(e):
            if t._op == "nan_to_num":
                sub[t] = t._args[0]
            elif t._op == "where" and terms.is_term(t._args[0]) and t._args[0]._op == "isnan":
                sub[t] = t._args[2]
            elif t._op == "where" and all(terms.is_term(x) and terms.poly(x) and min(terms.poly(x).values()) < 0 and max(terms.poly(x).values()) < 0 for x in t._args[1:]):
                sub[t] = mul(-1, T("where", t._args[0], mul(-1, t._args[1]), mul(-1, t._args[2])))
            elif t._op == "where" and terms.is_term(t._args[0]) and t._args[0]._op in tensorlib.TRUTHS:
                sub[t] = add(mul(t._args[0], t._args[1]), mul(add(1, t._args[0], -1), t._args[2]))
            elif t._op == "logical_not" and terms.is_term(t._args[0]) and t._args[0]._op in tensorlib.TRUTHS:
                sub[t] = add(1, t._args[0], -1)
            elif t._op in ("isnan", "isinf"):
                sub[t] = 0
            elif t._op in ("eq", "le") and terms.is_term(t._args[0]) and same(*t._args[:2]):
                sub[t] = 1
        if not sub:
            break
        # innermost first: substitute rebuilds from below
        e = substitute(e, sub)
        if not terms.is_term(e):
            break
    return e


def lattice(e):
    """an expression of maxima and minima as a set of sets: the maximum of minima; None when it is something else"""
    def go(x):
        if terms.is_term(x) and x._op in ("maximum", "minimum", "fmax", "fmin"):
            u, v = (go(y) for y in x._args)
            if u is None or v is None:
                return None
            if x._op in ("maximum", "fmax"):
                return u | v
            return frozenset(a | b for a in u for b in v)
        if terms.is_term(x) and x._op == "poly" or not terms.is_term(x):
            return frozenset([frozenset([x if terms.is_term(x) else ("n", x)])])
        return frozenset([frozenset([x])])
    s = go(e)
    return frozenset(a for a in s if not any(b < a for b in s))


class Ctx:
    """the inputs of one trace"""

    def __init__(self, bench, shape):
        self.m, self.shape, self.config, self.keys = bench.m, shape, bench.m.config(bench.keys), bench.keys

    def model(self, x, space="weight", special=None, dtype="float32"):
        """an input; special: its value as f(key), or one value for all keys"""
        lib = self.m.lib
        ts = {}
        for k in self.keys:
            e = special(k) if callable(special) and not terms.is_term(special) else special
            ts[k] = lib.input(f"{x}.{k}", self.shape, dtype) if e is None else lib.fresh(e, self.shape)
        return self.m.prog.call(self.m.w.literal, (ts, self.config, space), {})

    def alpha(self, v):
        return self.model("alpha", "param") if v is TENSOR else v


def at(x, k):
    return T("atom", f"{x}.{k}")


def av(v, k):
    return at("alpha", k) if v is TENSOR else num(v)


def total(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


class Bench:
    def __init__(self, m, keys=("k", "l")):
        self.m, self.keys, self.cases = m, tuple(keys), []
        m.prog.io.orders = False
        self.mm = m.methods()

    def M(self, name, *args, **kw):
        if name not in self.mm:
            raise Broken(f"merge method {name} does not exist any more")
        return self.m.prog.call(self.mm[name], args, kw)

    def space(self, name):
        """merge space that the models of a method are given in"""
        if name not in self.mm:
            raise Broken(f"merge method {name} does not exist any more")
        s = self.m.spec(self.mm[name])
        return s.vararg or (s.models[0][1] if s.models else "weight")

    def case(self, rule, construct, told, build, oracle, shapes=None, view=None):
        """oracle(k, val, c) -> expression, or f(have) -> (ok, told); val(recipe) -> {key: expression} of another recipe of the trace;
        view: applied to both sides before they are compared"""
        self.cases.append((rule, construct, told, build, oracle, shapes, view))

    def run(self, rep, shapes, rules, constructs, equations, max_paths=200):
        m, lib = self.m, self.m.lib
        work = [(c, s) for c in self.cases for s in (c[5] or shapes)]

        def judge(x):
            (rule, construct, text, build, oracle, _, view), shape = x
            res, n = [], collections.Counter()

            def entry():
                c = Ctx(self, shape)

                def val(recipe):
                    return {k: v.expr if isinstance(v, TT) else v for k, v in dict(m.merge(recipe)).items()}
                got = val(build(c))
                out = []
                for k in self.keys:
                    want, have = oracle(k, val, c), got[k]
                    if callable(want) and not terms.is_term(want):
                        ok, want = want(have)
                        out.append((k, bool(ok), terms.show(have), want))
                        continue
                    if terms.is_term(have) or terms.is_term(want):
                        if lib.close:
                            have, want = substitute(have, lib.close), substitute(want, lib.close)
                        if view is not None:
                            have, want = view(have), view(want)
                        ok = have == want if isinstance(have, frozenset) else same(have, want)
                    else:
                        ok = have == want
                    out.append((k, ok, terms.show(have) if terms.is_term(have) else str(have), terms.show(want) if terms.is_term(want) else str(want)))
                return out
            for path in m.each(entry, max_paths):
                n["traces"] += 1
                told = f"{text}, shape {tuple(shape)}"
                if path.kind == "raise":
                    res.append(("accepted", False, construct, WHERE, f"{told}: {path.value!r}", trace_of(path)))
                    continue
                res.append(("accepted", True, construct, "", "", ()))
                n[f"case {construct}"] += 1
                for k, ok, have, want in path.value:
                    res.append((rule, ok, construct, WHERE, f"{told}: the result is {have[:300]}, not {want[:300]}", trace_of(path)))
            return n, res
        counts, bad = sweep(m, work, judge)
        names = {k[5:] for k in counts if k.startswith("case ")}
        rep.unit(*names)
        for k in rules:
            rep.obligation(k, counts["ok " + k])
        for r in bad:
            rep.violation(r[0], r[2], r[3], r[4], r[5])
        rep.floor("constructs", len(names), constructs)
        rep.floor("equations", sum(counts["ok " + k] for k in rules if k != "accepted") + len(bad), equations)
