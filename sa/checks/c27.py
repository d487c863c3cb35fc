from fractions import Fraction
from ..methodlib import *
from ..tensorlib import add, mul, num, same, substitute

LEVEL = "other"
RULES = {
    "method": "the method computes its defining polynomial",
    "exact": "weighted_sum is exactly one of its inputs at alpha 0 and 1, whatever the other one contains",
    "restore": "adding a difference back to the model it was taken from restores the other model",
    "operator": "an operator computes what the method of its name computes",
    "helper": "a helper relative to a base adds alpha times the delta of its merge method to the base it was given",
    "accepted": "the merge raises no error",
}
EXPLANATION = ("Abstract interpretation of whole merges of recipes made of the linear methods, the operators and the model-relative helpers over two keys, with symbolic tensors and symbolic or numeric alpha. The merged tensor is a "
               "polynomial over the inputs in which non-linear methods are opaque terms; it is compared with the defining polynomial. Traces on which a tensor is assumed to be close to a constant are compared with that constant in its place.")
ASSUMPTIONS = ["arithmetic is that of the reals: rounding and overflow are out of scope"]
ALPHAS = (0.0, 0.25, 1.0, -1.0, 2.0, TENSOR)
WHERE = "sd_mecha/extensions/builtin/merge_methods"


def check(rep, tier):
    m = methods()
    p, lib = m.prog, m.lib
    p.io.orders = False
    mm = m.methods()
    f = {n: anchor(p, f"sd_mecha.{n}") for n in ("add_difference", "add_perpendicular", "add_difference_ties", "add_difference_ties_extended", "copy_region", "rotate", "dropout", "ties_with_dare", "n_model_stock")}
    for n in ("weighted_sum", "n_average", "subtract", "add_difference"):
        if n not in mm:
            raise Broken(f"merge method {n} does not exist any more")
    KEYS = ("k", "l")

    class Ctx:
        """the inputs of one trace"""

        def __init__(self, shape):
            self.shape, self.config = shape, m.config(KEYS)

        def model(self, x, space="weight", special=None):
            ts = {k: lib.input(f"{x}.{k}", self.shape) if special is None else lib.fresh(special, self.shape) for k in KEYS}
            return p.call(m.w.literal, (ts, self.config, space), {})

        def alpha(self, v):
            return self.model("alpha", "param") if v is TENSOR else v

    def at(x, k):
        return tensorlib.T("atom", f"{x}.{k}")

    def av(v, k):
        return at("alpha", k) if v is TENSOR else num(v)

    def lin(a, b, c):
        return add(a, mul(b, c))
    M = lambda name, *args, **kw: p.call(mm[name], args, kw)
    call = lambda g, *args, **kw: p.call(g, args, kw)
    op = lambda o, a, b: a + b if o == "+" else a - b

    # (rule, construct, told, build(ctx) -> recipe, oracle(k, value) -> expression) ; value(recipe) merges another recipe of the same trace
    cases = []

    def case(rule, construct, text, build, oracle):
        cases.append((rule, construct, text, build, oracle))
    for v in ALPHAS:
        t = "tensor" if v is TENSOR else v
        case("method", "weighted_sum", f"weighted_sum(a, b, alpha={t})", lambda c, v=v: M("weighted_sum", c.model("a"), c.model("b"), alpha=c.alpha(v)),
             lambda k, val, c, v=v: add(mul(add(1, av(v, k), -1), at("a", k)), mul(av(v, k), at("b", k))))
        case("method", "add_difference", f"add_difference(a, b, alpha={t})", lambda c, v=v: M("add_difference", c.model("a"), c.model("b", "delta"), alpha=c.alpha(v)),
             lambda k, val, c, v=v: lin(at("a", k), at("b", k), av(v, k)))
        case("helper", "add_difference of two models", f"the helper add_difference(a, b, alpha={t})", lambda c, v=v: call(f["add_difference"], c.model("a"), c.model("b", "delta"), alpha=c.alpha(v)),
             lambda k, val, c, v=v: lin(at("a", k), at("b", k), av(v, k)))
        case("helper", "add_difference of three models", f"the helper add_difference(a, b, c, alpha={t})", lambda c, v=v: call(f["add_difference"], c.model("a"), c.model("b"), c.model("c"), alpha=c.alpha(v)),
             lambda k, val, c, v=v: lin(at("a", k), add(at("b", k), at("c", k), -1), av(v, k)))
    case("method", "weighted_sum", "weighted_sum(a, b)", lambda c: M("weighted_sum", c.model("a"), c.model("b")), lambda k, val, c: mul(Fraction(1, 2), add(at("a", k), at("b", k))))
    case("method", "weighted_sum", "weighted_sum of deltas", lambda c: M("weighted_sum", c.model("a", "delta"), c.model("b", "delta"), alpha=0.25), lambda k, val, c: add(mul(Fraction(3, 4), at("a", k)), mul(Fraction(1, 4), at("b", k))))
    case("method", "add_difference", "add_difference(a, b)", lambda c: M("add_difference", c.model("a"), c.model("b", "delta")), lambda k, val, c: add(at("a", k), at("b", k)))
    for v, keep, other in ((0.0, "a", "b"), (1.0, "b", "a"), (0, "a", "b"), (1, "b", "a")):
        case("exact", f"weighted_sum at alpha {v}", f"weighted_sum(a, b, alpha={v}) with {other} not finite",
             lambda c, v=v, other=other: M("weighted_sum", *[c.model(x, special=tensorlib.NAN if x == other else None) for x in ("a", "b")], alpha=v), lambda k, val, c, keep=keep: at(keep, k))
    for n in range(1, 6):
        case("method", "n_average", f"n_average of {n} models", lambda c, n=n: M("n_average", *[c.model(f"m{i}") for i in range(n)]), lambda k, val, c, n=n: mul(Fraction(1, n), total(at(f"m{i}", k) for i in range(n))))
    case("method", "subtract", "subtract(a, b)", lambda c: M("subtract", c.model("a"), c.model("b")), lambda k, val, c: add(at("a", k), at("b", k), -1))

    def restored(how):
        def build(c):
            a, b = c.model("a"), c.model("b")
            if how == "method":
                return M("add_difference", a, M("subtract", b, a), alpha=1.0)
            if how == "default":
                return M("add_difference", a, M("subtract", b, a))
            if how == "helper":
                return call(f["add_difference"], a, b, a)
            if how == "delta":
                return call(f["add_difference"], a, M("subtract", b, a), alpha=1.0)
            return op("+", a, op("-", b, a))
        return build
    for how in ("method", "default", "helper", "delta", "operators"):
        case("restore", f"a + (b - a) with {how}", f"a + (b - a) with {how}", restored(how), lambda k, val, c: at("b", k))
    for a, b in (("weight", "delta"),):
        case("operator", "+", "model + delta", lambda c: op("+", c.model("a"), c.model("b", "delta")), lambda k, val, c: add(at("a", k), at("b", k)))
    case("operator", "-", "model - model", lambda c: op("-", c.model("a"), c.model("b")), lambda k, val, c: add(at("a", k), at("b", k), -1))
    case("operator", "+ and -", "a + (b - c) - d", lambda c: op("-", op("+", c.model("a"), op("-", c.model("b"), c.model("c"))), c.model("d")),
         lambda k, val, c: add(add(add(at("a", k), at("b", k)), at("c", k), -1), at("d", k), -1))

    # helpers relative to a base
    def deltas(c, n, given=None):
        base = c.model("base")
        return base, [M("subtract", c.model(f"m{i}"), base) if given != i else c.model(f"m{i}", "delta") for i in range(n)]

    def relative(name, method, models, options, passed, alpha, given=None):
        def build(c):
            kw = dict(options)
            if alpha is not None:
                kw["alpha"] = c.alpha(alpha)
            ms = [c.model(f"m{i}", "delta" if given == i else "weight") for i in range(models)]
            return call(f[name], c.model("base"), *ms, **kw)

        def oracle(k, val, c):
            base, ds = deltas(c, models, given)
            return lin(at("base", k), val(M(method, *ds, **passed))[k], 1 if alpha is None else av(alpha, k))
        case("helper", name, f"{name} of {models} models with {options}" + ("" if alpha is None else f", alpha={'tensor' if alpha is TENSOR else alpha}") + ("" if given is None else f", model {given} given as a delta"), build, oracle)
    for n in (1, 2, 3) if tier == "thorough" else (1, 3):
        for v in (1.0, 0.25, TENSOR):
            relative("add_difference_ties", "ties_sum", n, dict(k=0.5), dict(k=0.5), v)
            relative("add_difference_ties_extended", "ties_sum_extended", n, dict(k=0.5), dict(k=0.5), v)
            relative("dropout", "dropout", n, dict(probability=0.5, seed=3), dict(probability=0.5, seed=3), v)
            relative("ties_with_dare", "ties_sum_with_dropout", n, dict(probability=0.5, seed=3, k=0.5), dict(probability=0.5, seed=3, k=0.5), v)
    relative("add_difference_ties", "ties_sum", 3, dict(k=0.5), dict(k=0.5), 0.5, given=1)
    relative("ties_with_dare", "ties_sum_with_dropout", 3, dict(probability=0.5, seed=3, k=0.5), dict(probability=0.5, seed=3, k=0.5), 0.5, given=0)
    relative("n_model_stock", "model_stock", 3, {}, {}, None)
    relative("n_model_stock", "model_stock", 3, dict(cos_eps=1e-3), dict(cos_eps=1e-3), None)
    relative("n_model_stock", "model_stock", 2, {}, {}, None, given=1)

    def based(name, method, options):
        def build(c):
            return call(f[name], c.model("a"), c.model("b"), c.model("c"), **options)

        def oracle(k, val, c):
            d = [M("subtract", c.model(x), c.model("c")) for x in ("a", "b")]
            return add(at("c", k), val(M(method, *d, **{o: v for o, v in options.items() if o != "top_k"}))[k])
        case("helper", f"{name} of three models", f"{name}(a, b, c) with {options}", build, oracle)
    based("copy_region", "tensor_sum", dict(width=0.5, offset=0.25))
    based("copy_region", "tensor_sum", dict(width=0.5, offset=0.75))
    based("copy_region", "top_k_tensor_sum", dict(width=0.5, offset=0.25, top_k=True))
    based("rotate", "rotate", dict(alignment=1.0, alpha=0.25))
    based("rotate", "rotate", dict(alignment=0.5))
    for v in (1.0, 0.25, TENSOR):
        def oracle(k, val, c, v=v):
            d = [M("subtract", c.model(x), c.model("c")) for x in ("a", "b")]
            return lin(at("a", k), val(M("perpendicular_component", *d))[k], av(v, k))
        case("helper", "add_perpendicular", f"add_perpendicular(a, b, c, alpha={'tensor' if v is TENSOR else v})", lambda c, v=v: call(f["add_perpendicular"], c.model("a"), c.model("b"), c.model("c"), alpha=c.alpha(v)), oracle)

    shapes = ((3, 4), (), (4, 2, 3, 3)) if tier == "thorough" else ((3, 4), ())
    work = [(c, s) for c in cases for s in shapes]

    def judge(x):
        (rule, construct, text, build, oracle), shape = x
        res, n = [], collections.Counter()

        def entry():
            c = Ctx(shape)
            memo = {}

            def val(recipe):
                got = dict(m.merge(recipe))
                return {k: v.expr for k, v in got.items()}
            got = {k: v.expr for k, v in m.merge(build(c)).items()}
            out = []
            for k in KEYS:
                want = oracle(k, val, c)
                have = got[k]
                if lib.close:
                    have, want = substitute(have, lib.close), substitute(want, lib.close)
                out.append((k, same(have, want), terms.show(have), terms.show(want)))
            return out
        for path in m.each(entry, 200):
            n["traces"] += 1
            told = f"{text}, shape {shape}"
            if path.kind == "raise":
                res.append(("accepted", False, construct, WHERE, f"{told}: {path.value!r}", trace_of(path)))
                continue
            res.append(("accepted", True, construct, "", "", ()))
            n[f"case {construct}"] += 1
            for k, ok, have, want in path.value:
                res.append((rule, ok, construct, WHERE, f"{told}: the result is {have[:300]}, not {want[:300]}", trace_of(path)))
        return n, res
    counts, bad = sweep(m, work, judge)
    names = {k[5:] for k in counts if k.startswith("case ")}
    rep.unit(*names)
    for k in RULES:
        rep.obligation(k, counts["ok " + k])
    for r in bad:
        rep.violation(r[0], r[2], r[3], r[4], r[5])
    rep.floor("methods, operators and helpers", len(names), 20)
    rep.floor("equations", sum(counts["ok " + k] for k in RULES if k != "accepted") + len(bad), 250)


def total(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r
