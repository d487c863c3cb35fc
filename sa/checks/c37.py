from ..equations import *

LEVEL = "other"
RULES = {
    "copies": "merging copies of one model gives that model",
    "zero": "a method that measures a difference gives zero where there is none",
    "perpendicular": "the perpendicular component is the second model less its projection on the first one, and perpendicular to the first one",
    "symmetric": "exchanging the models, and their weights with them, does not change the result",
    "complement": "what one order of the models takes from one of them, the other order takes from the other one",
    "odd": "negating every model negates the result",
    "clamp": "clamp gives the nearest value within the bounds",
    "accepted": "the merge raises no error",
}
EXPLANATION = ("Abstract interpretation of whole merges over symbolic tensors, for every option class. The two sides of each law are merged in the same trace and compared as expressions in normal form (polynomials over opaque terms; maxima and "
               "minima as elements of the free distributive lattice). Traces on which tensors are assumed to be close to each other are compared with the one in place of the other.")
ASSUMPTIONS = ["arithmetic is that of the reals, without rounding and overflow", "inputs are finite"]


def check(rep, tier):
    m = methods()
    B = Bench(m, ("k", "l") if tier == "thorough" else ("k",))
    M, case = B.M, B.case
    thorough = tier == "thorough"
    ALPHAS = (0.0, 0.25, 1.0, TENSOR)
    counts = (2, 3, 4, 5) if thorough else (2, 3)

    def options(name, **fixed):
        """every option assignment of a method with some options fixed"""
        spec = m.spec(B.mm[name]) if name in B.mm else None
        if spec is None:
            raise Broken(f"merge method {name} does not exist any more")
        names = {n for n, _, _ in spec.options}
        seen = []
        for o in combinations(spec, tier):
            o = {**o, **{k: v for k, v in fixed.items() if k in names}}
            k = sorted((a, "tensor" if b is TENSOR else repr(b)) for a, b in o.items())
            if k not in seen:
                seen.append(k)
                yield o

    def given(c, o):
        return {k: c.model(k, "param") if v is TENSOR else v for k, v in o.items()}

    def say(o):
        return ", ".join(f"{k}={'tensor' if v is TENSOR else v}" for k, v in sorted(o.items()))

    # ---- copies of one model
    def copies(name, o, n, construct=None):
        s = B.space(name)
        case("copies", construct or name, f"{name} of {n} copies of a model with {say(o)}", lambda c: M(name, *[c.model("x", s) for _ in range(n)], **given(c, o)), lambda k, val, c: at("x", k), view=finite)
    for name in ("weighted_sum", "slerp", "geometric_sum", "add_cosine_a", "add_cosine_b", "crossover", "rotate", "tensor_sum", "top_k_tensor_sum", "select_max_delta", "select_max_white_delta"):
        for o in options(name):
            copies(name, o, 2)
    for n in (1,) + counts:
        copies("n_average", {}, n)
        for o in options("geometric_median"):
            copies("geometric_median", o, n)
        for o in options("clamp"):
            copies("clamp", o, n + 1)
        for o in options("ties_sum", k=1.0):
            copies("ties_sum", o, n)
        for o in options("dropout", probability=0.0, overlap=1.0, overlap_emphasis=0.0):
            copies("dropout", o, n)
        if n > 1:
            for o in options("model_stock"):
                copies("model_stock", o, n)
        for o in options("ties_sum_extended", k=1.0):
            if n > 1 or not o.get("apply_stock"):
                copies("ties_sum_extended", o, n)
        for o in options("ties_sum_with_dropout", k=1.0, probability=0.0):
            if n > 1 or not o.get("apply_stock"):
                copies("ties_sum_with_dropout", o, n)
    for a in ALPHAS:
        case("copies", "multiply_quotient", "multiply_quotient(a, b, b)", lambda c, a=a: M("multiply_quotient", c.model("x"), c.model("b"), c.model("b"), alpha=c.alpha(a)), lambda k, val, c: at("x", k), view=finite)
        case("copies", "multiply_quotient", "multiply_quotient(a, b, a)", lambda c, a=a: M("multiply_quotient", c.model("x"), c.model("b"), c.model("x"), alpha=c.alpha(a)), lambda k, val, c: at("x", k), view=finite)
    # several copies vote like one
    for k_ in (0.25, 0.5, 1.0):
        for v in (False, True):
            for n in counts:
                case("copies", "ties_sum", f"ties_sum of {n} copies of a model with k={k_}, vote_sgn={v}", lambda c, k_=k_, v=v, n=n: M("ties_sum", *[c.model("x", "delta") for _ in range(n)], k=k_, vote_sgn=v),
                     lambda k, val, c, k_=k_, v=v: val(M("ties_sum", c.model("x", "delta"), k=k_, vote_sgn=v))[k], view=finite)

    # ---- no difference, nothing to measure
    def zero(name, models, o={}, construct=None):
        case("zero", construct or name, f"{name}({', '.join(models)}) with {say(o)}", lambda c: M(name, *[c.model(x, B.space(name)) for x in models], **given(c, o)), lambda k, val, c: 0, view=finite)
    zero("subtract", "xx")
    zero("perpendicular_component", "xx")
    for a in ALPHAS:
        zero("train_difference_mask", "aac", dict(alpha=a))
        for name in ("train_difference_mask", "add_opposite_mask", "add_strict_opposite_mask"):
            zero(name, "aaa", dict(alpha=a))
        zero("add_opposite_mask", "aac", dict(alpha=a))
        zero("add_strict_opposite_mask", "aba", dict(alpha=a))
        zero("add_strict_opposite_mask", "abb", dict(alpha=a))

    # ---- perpendicular
    dot = lambda u, v: (lambda e: e)(tensorlib.summed(mul(u, v), None, 1))
    big = [s for s in SHAPES if len(s) > 0] if thorough else [(4,), (3, 4), (2, 3, 3, 3)]
    case("perpendicular", "perpendicular_component", "perpendicular_component(a, b)", lambda c: M("perpendicular_component", c.model("a"), c.model("b")),
         lambda k, val, c: lambda have: perp(have, at("a", k), at("b", k)), shapes=big)

    def perp(have, a, b):
        if not terms.is_term(have) and have == 0:
            return True, "0"                              # the trace on which the quotient is not a number
        want = add(b, mul(a, div(dot(a, b), dot(a, a))), -1)
        return same(finite(have), want) and same(dot(a, want), 0), terms.show(want)

    # ---- symmetric
    def permuted(name, o, n, sub=None):
        s = B.space(name)
        for perm in list(itertools.permutations(range(n)))[1:] if n < 4 else [tuple(range(1, n)) + (0,), (1, 0) + tuple(range(2, n))]:
            case("symmetric", name, f"{name} of {n} models in the order {perm} with {say(o)}", lambda c, perm=perm: M(name, *[c.model(f"m{i}", s) for i in perm], **given(c, o)),
                 lambda k, val, c: val(M(name, *[c.model(f"m{i}", s) for i in range(n)], **given(c, o)))[k], view=finite)
    for n in counts:
        permuted("n_average", {}, n)
        for o in options("geometric_median"):
            permuted("geometric_median", o, n)
        for o in options("ties_sum"):
            permuted("ties_sum", o, n)
        for o in options("ties_sum_extended", apply_stock=False):
            permuted("ties_sum_extended", o, n)
    permuted("model_stock", {}, 2)
    for n in (2, 3):
        permuted("geometric_median", dict(maxiter=2), n)

    def mirrored(name, values, alpha="alpha"):
        s = B.space(name)
        for v in values:
            other = (lambda c: c.model("beta", "param", lambda k: add(1, at("alpha", k), -1))) if v is TENSOR else (lambda c, v=v: 1 - v)
            case("symmetric", name, f"{name}(b, a, 1 - alpha) with alpha={'tensor' if v is TENSOR else v}", lambda c, other=other: M(name, c.model("b", s), c.model("a", s), **{alpha: other(c)}),
                 lambda k, val, c, v=v: val(M(name, c.model("a", s), c.model("b", s), **{alpha: c.alpha(v)}))[k], view=finite)
    for name in ("weighted_sum", "slerp", "geometric_sum"):
        mirrored(name, (0.0, 0.25, 0.5, 1.0, TENSOR))

    # ---- complement
    for name in ("weighted_sum", "crossover", "tensor_sum"):
        s = B.space(name)
        rows = (lambda x: lambda k: T("stack", *[T("atom", f"{x}.{k}.{i}") for i in range(3)])) if name == "tensor_sum" else lambda x: None
        for o in options(name):
            case("complement", name, f"{name} of (a, b) and of (b, a) with {say(o)}", lambda c, o=o, name=name, rows=rows: M(name, *[c.model(x, special=rows(x)) for x in "ab"], **given(c, o)),
                 lambda k, val, c, o=o, name=name, rows=rows: complement(val(M(name, *[c.model(x, special=rows(x)) for x in "ba"], **given(c, o)))[k], k, rows), view=finite,
                 shapes=((3,), (3, 4), (3, 2, 3, 3)) if name == "tensor_sum" else None)

    def complement(other, k, rows):
        both = add(*[at(x, k) if rows(x) is None else rows(x)(k) for x in "ab"]) if rows("a") is None else T("stack", *[add(*[T("atom", f"{x}.{k}.{i}") for x in "ab"]) for i in range(3)])
        if terms.is_term(other) and tensorlib.parts(other) is not None or tensorlib.parts(both) is not None:
            return T("stack", *[add(u, v, -1) for u, v in zip(tensorlib.parts(both), tensorlib.parts(other) or [other] * 3)])
        return add(both, other, -1)

    # ---- odd
    def odd(name, o, n):
        s = B.space(name)
        case("odd", name, f"{name} of {n} negated models with {say(o)}", lambda c: M(name, *[c.model(f"m{i}", s, lambda k, i=i: mul(-1, at(f"m{i}", k))) for i in range(n)], **given(c, o)),
             lambda k, val, c: mul(-1, val(M(name, *[c.model(f"m{i}", s) for i in range(n)], **given(c, o)))[k]), view=finite)
    for name, fixed in (("n_average", {}), ("ties_sum", {}), ("ties_sum_extended", dict(apply_stock=False, maxiter=0)), ("dropout", dict(seed=7, probability=0.0, overlap=1.0, overlap_emphasis=0.0)), ("select_max_delta", {}), ("weighted_sum", {}), ("subtract", {})):
        for o in options(name, **fixed):
            for n in (2,) if not m.spec(B.mm[name]).vararg else counts:
                odd(name, o, n)

    # ---- clamp
    for n in counts if thorough else (1, 2, 3):
        def bounded(k, val, c, n=n):
            lo = hi = at("b0", k)
            for i in range(1, n):
                lo, hi = T("minimum", lo, at(f"b{i}", k)), T("maximum", hi, at(f"b{i}", k))
            return T("minimum", T("maximum", at("a", k), lo), hi)
        case("clamp", "clamp", f"clamp(a, {n} bounds)", lambda c, n=n: M("clamp", c.model("a"), *[c.model(f"b{i}") for i in range(n)]), bounded, view=lattice)
        case("clamp", "clamp", f"clamp(a, {n} bounds, stiffness=0)", lambda c, n=n: M("clamp", c.model("a"), *[c.model(f"b{i}") for i in range(n)], stiffness=0.0), bounded, view=lattice)
    B.run(rep, ((3, 4), (), (4,), (2, 3, 3, 3)), RULES, 18, 2000)
