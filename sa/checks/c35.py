from ..equations import *

LEVEL = "other"
RULES = {
    "boundary": "at the ends of an option's range the result is one of the models, or what the method degenerates to",
    "region": "tensor_sum takes the rows of the region (offset, offset + width), which wraps around, from the second model and the others from the first one",
    "masks": "difference masks are alpha times their ratio of differences",
    "cosine": "add_cosine methods weight the models by the similarity of the columns, less alpha",
    "select": "select_max_delta picks the element with the greatest weighted deviation",
    "ties": "ties_sum averages the elements among the greatest ones of each delta that have the elected sign",
    "vote": "the sign elected is that of the sum of the deltas, or that of the sum of their signs with vote_sgn",
    "variant": "the switches of the ties variants select the variant that they name",
    "stock": "model_stock scales the average of the deltas by the stock ratio",
    "median": "geometric_median takes maxiter Weiszfeld steps from the mean",
    "dropout": "dropout averages the deltas that the masks keep and divides by (1 - probability) ** rescale",
    "dare": "ties_sum_with_dropout is ties_sum_extended of the deltas that were kept, divided by 1 - probability unless no_rescale",
    "rotate": "rotate turns the neurons around their centroid, and moves the centroid by alignment",
    "accepted": "the merge raises no error",
}
EXPLANATION = ("Abstract interpretation of whole merges over symbolic tensors for representative option values. The result, in polynomial normal form over opaque terms and up to the treatment of values that are not numbers, is compared with the "
               "result that the options are documented to select: one of the inputs, another merge, or a reference formula computed over the same terms.")
ASSUMPTIONS = ["arithmetic is that of the reals, without rounding and overflow", "inputs are finite"]


def check(rep, tier):
    m = methods()
    lib = m.lib
    thorough = tier == "thorough"
    B = Bench(m, ("k", "l") if thorough else ("k",))
    M, case = B.M, B.case
    ALPHAS = (0.0, 0.25, 1.0, 2.0, TENSOR)
    NS = (2, 3, 4) if thorough else (2, 3)
    show = lambda v: "tensor" if v is TENSOR else v
    S = lambda name: B.space(name)

    def two(name, o, want, rule="boundary", shapes=None, more=()):
        """name(a, b, ...) with options o is want(k, c)"""
        names = "ab" + "".join(more)
        case(rule, name, f"{name}({', '.join(names)}) with {', '.join(f'{k}={show(v)}' for k, v in o.items())}", lambda c: M(name, *[c.model(x, S(name)) for x in names], **{k: c.model(k, "param") if v is TENSOR else v for k, v in o.items()}),
             lambda k, val, c: want(k), shapes=shapes, view=finite)
    A, Bm = (lambda k: at("a", k)), (lambda k: at("b", k))
    for name in ("slerp", "geometric_sum"):
        two(name, dict(alpha=0.0), A)
        two(name, dict(alpha=1.0), Bm)
    for tilt in (0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0):
        two("crossover", dict(alpha=0.0, tilt=tilt), A)
        two("crossover", dict(alpha=1.0, tilt=tilt), Bm)
    for a in (0.25, 0.5, 0.75):
        two("crossover", dict(alpha=a, tilt=1.0), lambda k, a=a: add(mul(num(1 - a), at("a", k)), mul(num(a), at("b", k))))
    two("rotate", dict(alignment=0.0, alpha=0.0), A)
    two("rotate", dict(alignment=1.0, alpha=1.0), Bm)
    two("rotate", dict(alignment=0.0), A)
    two("select_max_delta", dict(alpha=0.0), A)
    for f in (0.0, 0.25, 0.5, 1.25):
        two("tensor_sum", dict(width=0.0, offset=f), A, shapes=((), (4,), (3, 4), (2, 3, 3, 3)))
        two("tensor_sum", dict(width=1.0, offset=f), Bm, shapes=((), (4,), (3, 4), (2, 3, 3, 3)))
        two("tensor_sum", dict(width=3.0, offset=f), Bm, shapes=((), (4,), (3, 4), (2, 3, 3, 3)))
    two("multiply_quotient", dict(alpha=0.0), A, more="c")
    for r in (1.0, 1.5):
        case("boundary", "truncate_rank", f"truncate_rank(a, rank_ratio={r})", lambda c, r=r: M("truncate_rank", c.model("a", "delta"), rank_ratio=r), lambda k, val, c: at("a", k))
    case("boundary", "clamp", "clamp(a, b)", lambda c: M("clamp", c.model("a"), c.model("b")), lambda k, val, c: at("b", k), view=lattice)

    # ---- regions of tensor_sum
    for rows in (1, 2, 3, 4, 5, 8) if thorough else (2, 4, 5):
        for w in (0.0, 0.25, 0.5, 0.75, 1.0, -0.25, 2.0):
            for o in (0.0, 0.25, 0.5, 0.75, 0.9, 1.25, -0.25, -1.75):
                def row(x, k, rows=rows):
                    return [T("atom", f"{x}.{k}.{i}") for i in range(rows)]

                def region(k, rows=rows, w=w, o=o, row=row):
                    start, width = (o + w, -w) if w < 0 else (o, w)
                    start %= 1
                    width = min(width, 1)
                    end = start + width
                    if end <= 1:
                        inside = set(range(round(start * rows), round(end * rows)))
                    else:
                        inside = set(range(rows)) - set(range(round((end - 1) * rows), round(start * rows)))
                    return T("stack", *[row("b" if i in inside else "a", k)[i] for i in range(rows)])
                case("region", "tensor_sum", f"tensor_sum(a, b, width={w}, offset={o})", lambda c, w=w, o=o, row=row: M("tensor_sum", *[c.model(x, special=lambda k, x=x: T("stack", *row(x, k))) for x in "ab"], width=w, offset=o),
                     lambda k, val, c, region=region: (lambda have: (same_stack(have, region(k)), terms.show(region(k)))), shapes=((rows,), (rows, 3)))

    def same_stack(u, v):
        p, q = tensorlib.parts(u), tensorlib.parts(v)
        return p is not None and q is not None and len(p) == len(q) and all(same(x, y) for x, y in zip(p, q))

    # ---- reference formulas, computed on the same tensors
    call = lambda f, *a, **k: lib.call(f, a, k)

    def formula(rule, name, o, models, f, shapes=None, construct=None, n=None):
        """f(tensors of the models, alpha or None) -> tensor"""
        def want(k, val, c):
            ts = [lib.input(f"{x}.{k}", c.shape) for x in models]
            al = {p: lib.input(f"{p}.{k}", c.shape) if v is TENSOR else v for p, v in o.items()}
            r = f(*ts, **al)
            return r.expr if isinstance(r, TT) else r
        case(rule, construct or name, f"{name}({', '.join(models)}) with {', '.join(f'{k}={show(v)}' for k, v in o.items())}",
             lambda c: M(name, *[c.model(x, S(name)) for x in models], **{k: c.model(k, "param") if v is TENSOR else v for k, v in o.items()}), want, shapes=shapes, view=finite)
    for a in ALPHAS:
        formula("masks", "train_difference_mask", dict(alpha=a), "abc", lambda a, b, c, alpha: (b - a).abs() / ((b - a).abs() + (b - c).abs()) * 1.8 * alpha)
        formula("masks", "add_opposite_mask", dict(alpha=a), "abc", lambda a, b, c, alpha: (a - b).abs() / ((a - b).abs() + (a + b - 2 * c).abs()) * 2 * alpha)

        def strict(a, b, c, alpha):
            t = call("maximum", (a - c).abs(), (b - c).abs())
            return call("clamp", (c - a) * (b - c) / t ** 2, min=0) * 2 * alpha
        formula("masks", "add_strict_opposite_mask", dict(alpha=a), "abc", strict)

        def cos_a(a, b, alpha):
            n = [call("nn.functional.normalize", x, dim=0) for x in (a, b)]
            k = 1 - call("clamp", call("nn.functional.cosine_similarity", *n, dim=0) - alpha, 0, 1)
            return (1 - k) * a + k * b

        def cos_b(a, b, alpha):
            s = (call("nn.functional.cosine_similarity", a, b, dim=0) + (a * b).sum() / (a.norm() * b.norm())) / 2
            k = 1 - call("clamp", s - alpha, 0, 1)
            return (1 - k) * a + k * b
        formula("cosine", "add_cosine_a", dict(alpha=a), "ab", cos_a)
        formula("cosine", "add_cosine_b", dict(alpha=a), "ab", cos_b)

        def select(a, b, alpha):
            da, db = ((x - x.mean()) / x.std() for x in (a, b))
            return call("where", call("ge", (1 - alpha) * da.abs(), alpha * db.abs()), a, b)
        if a not in (2.0,):
            formula("select", "select_max_delta", dict(alpha=a), "ab", select, shapes=((4,), (3, 4), (2, 3, 3, 3)))

    # ---- ties
    def top(x, k):
        n = math.prod(x.shape)
        drop = max(int((1 - k) * n), 1)
        kth = call("kthvalue", x.flatten().abs().float(), drop)[0]
        return x * call("ge", x.abs(), kth)

    def elected(deltas, by_sign):
        s = 0
        for d in deltas:
            s = s + (call("sign", d) if by_sign else d)
        return call("sign", s)

    def agreeing(xs, k, by_sign):
        deltas = [top(x, k) for x in xs]
        e = elected(deltas, by_sign)
        keep = [call("eq", call("sign", d), e).float() for d in deltas]
        return [d * f for d, f in zip(deltas, keep)], keep

    def sums(xs):
        r = xs[0]
        for x in xs[1:]:
            r = r + x
        return r

    def plain(xs, k, by_sign):
        d, f = agreeing(xs, k, by_sign)
        return sums(d) / sums(f)

    def either(fs):
        """result is one of the values, which one is decided by another rule"""
        def judge(have):
            ws = [finite(f) for f in fs]
            h = finite(have)
            return any(same(h, w) for w in ws), " or ".join(terms.show(w) if terms.is_term(w) else str(w) for w in ws)
        return judge
    import math
    for name in ("ties_sum", "ties_sum_extended"):
        for n in (1,) + NS:
            ms = [f"m{i}" for i in range(n)]
            for k_ in (0.2, 0.5, 1.0) if n < 4 else (0.5,):
                for v in (False, True):
                    def deltas(c, ms=ms, name=name):
                        return [c.model(x, "delta") for x in ms]

                    def want(k, val, c, ms=ms, k_=k_):
                        ts = [lib.input(f"{x}.{k}", c.shape) for x in ms]
                        return either([plain(ts, k_, s).expr for s in (False, True)])
                    case("ties", name, f"{name} of {n} deltas with k={k_}, vote_sgn={v}", lambda c, deltas=deltas, name=name, k_=k_, v=v: M(name, *deltas(c), k=k_, vote_sgn=v), want)
                    if name == "ties_sum_extended":
                        case("variant", name, f"{name} of {n} deltas with k={k_}, vote_sgn={v}", lambda c, deltas=deltas, k_=k_, v=v: M("ties_sum_extended", *deltas(c), k=k_, vote_sgn=v),
                             lambda k, val, c, deltas=deltas, k_=k_, v=v: val(M("ties_sum", *deltas(c), k=k_, vote_sgn=v))[k], view=finite)
                    if n in (2, 3) and k_ == 0.5:
                        def voted(k, val, c, ms=ms, k_=k_, v=v):
                            ts = [lib.input(f"{x}.{k}", c.shape) for x in ms]
                            return plain(ts, k_, v).expr
                        case("vote", "vote_sgn", f"{name} of {n} deltas with k={k_}, vote_sgn={v}", lambda c, deltas=deltas, name=name, k_=k_, v=v: M(name, *deltas(c), k=k_, vote_sgn=v), voted, view=finite)

                        def differ(k, val, c, name=name, deltas=deltas, k_=k_, v=v):
                            other = val(M(name, *deltas(c), k=k_, vote_sgn=not v))[k]
                            return lambda have: (not same(finite(have), finite(other)), "different with the other value of vote_sgn")
                        case("variant", f"{name}: vote_sgn", f"{name} of {n} deltas with k={k_}, vote_sgn={v}", lambda c, deltas=deltas, name=name, k_=k_, v=v: M(name, *deltas(c), k=k_, vote_sgn=v), differ)

    def ratio(xs, eps):
        n = len(xs)
        cs = [call("nn.functional.cosine_similarity", x, y, dim=-1, eps=eps) for x, y in zip(xs, xs[1:])]
        c = sums(cs) / len(cs)
        t = n * c / (1 + (n - 1) * c)
        return t.unsqueeze(-1) if len(xs[0].shape) else t

    def weiszfeld(xs, steps, eps):
        w = [1] * len(xs)
        med = sums(xs) / len(xs)
        for i in range(steps):
            w = [1 / call("clamp", call("dist", x, med), min=eps) for x in xs]
            med = sums([x * y for x, y in zip(xs, w)]) / sums(w)
        return med
    for n in NS:
        ms = [f"m{i}" for i in range(n)]
        for eps in (None, 1e-3):
            o = {} if eps is None else dict(cos_eps=eps)
            formula("stock", "model_stock", o, ms, lambda *xs, cos_eps=1e-6: ratio(xs, cos_eps) * sums(xs) / len(xs))
        for steps in (0, 1):
            for eps in (None, 1e-3):
                o = dict(maxiter=steps, **({} if eps is None else dict(eps=eps)))
                formula("median", "geometric_median", o, ms, lambda *xs, maxiter, eps=1e-6: weiszfeld(xs, maxiter, eps), construct="geometric_median")
        for v in (False, True):
            def variant(o, f, ms=ms, v=v):
                def want(k, val, c):
                    ts = [lib.input(f"{x}.{k}", c.shape) for x in ms]
                    return either([f(*agreeing(ts, 0.5, s)).expr for s in (False, True)])
                case("variant", "ties_sum_extended: " + " ".join(sorted(x for x in o if x.startswith("apply"))), f"ties_sum_extended of {len(ms)} deltas with k=0.5, vote_sgn={v}, {o}",
                     lambda c: M("ties_sum_extended", *[c.model(x, "delta") for x in ms], k=0.5, vote_sgn=v, **o), want)
            variant(dict(apply_stock=True), lambda d, f: ratio(d, 1e-6) * sums(d) / sums(f))
            variant(dict(apply_stock=True, cos_eps=1e-3), lambda d, f: ratio(d, 1e-3) * sums(d) / sums(f))
            variant(dict(apply_median=True, maxiter=0), lambda d, f: sums(d) / len(d))
            variant(dict(apply_median=True, maxiter=1), lambda d, f: weiszfeld(d, 1, 1e-6))
            variant(dict(apply_median=True, apply_stock=True, maxiter=1, eps=1e-3), lambda d, f: weiszfeld(d, 1, 1e-3))

    # ---- dropout
    def kept(have):
        """the mean of what is kept of each delta; the masks are those of the result"""
        return have
    for n in (1,) + NS:
        ms = [f"m{i}" for i in range(n)]
        D = lambda c, ms=ms: [c.model(x, "delta") for x in ms]
        for o in (dict(), dict(overlap=0.0), dict(overlap=0.5), dict(overlap_emphasis=0.5)) if n > 1 else (dict(),):
            for rescale in (0.0, 0.5, 1.0):
                if rescale:
                    case("dropout", "dropout: rescale", f"dropout of {n} deltas with probability=0.5, rescale={rescale}, {o}", lambda c, D=D, o=o, rescale=rescale: M("dropout", *D(c), probability=0.5, rescale=rescale, seed=7, **o),
                         lambda k, val, c, D=D, o=o, rescale=rescale: mul(num(0.5 ** -rescale), val(M("dropout", *D(c), probability=0.5, rescale=0.0, seed=7, **o))[k]), view=rounded)
            case("dropout", "dropout: probability 1", f"dropout of {n} deltas with probability=1.0, {o}", lambda c, D=D, o=o: M("dropout", *D(c), probability=1.0, seed=7, **{k: v for k, v in o.items() if k == "none"}), lambda k, val, c: 0, view=finite)
        case("dropout", "dropout: probability 0", f"dropout of {n} deltas with probability=0.0", lambda c, D=D: M("dropout", *D(c), probability=0.0, seed=7), lambda k, val, c, ms=ms, n=n: mul(Fraction(1, n), total(at(x, k) for x in ms)), view=finite)
        for rescale in (0.0, 1.0):
            case("dropout", "dropout: mean of what is kept", f"dropout of {n} deltas with probability=0.5, rescale={rescale}", lambda c, D=D, rescale=rescale: M("dropout", *D(c), probability=0.5, rescale=rescale, seed=7),
                 lambda k, val, c, ms=ms, rescale=rescale: (lambda have: masked_mean(finite(have), [at(x, k) for x in ms], 0.5 ** rescale)))

    def masked_mean(have, xs, div_by):
        """have is sum of mask_i x_i / max(1, number of masks) / (1 - p) ** rescale, with masks of its own drawings"""
        masks = sorted({t for t in terms.walk(have) if t._op == "to bool"} if terms.is_term(have) else (), key=lambda t: t._args[0]._args[1] if terms.is_term(t._args[0]) and t._args[0]._op == "draw" else t._id)
        for perm in itertools.permutations(masks, len(xs)) if len(masks) == len(xs) else ():
            want = mul(num(Fraction(1) / Fraction(div_by)), div(total(mul(mk, x) for mk, x in zip(perm, xs)), lib.binary("maximum", total(perm), 1)))
            if same(have, want):
                return True, ""
        return False, f"the mean of the deltas under one mask each, divided by {div_by}"

    # ---- ties with dropout
    for n in NS:
        ms = [f"m{i}" for i in range(n)]
        D = lambda c, ms=ms: [c.model(x, "delta") for x in ms]
        for o in (dict(), dict(k=0.5), dict(vote_sgn=True), dict(apply_stock=True), dict(apply_stock=True, cos_eps=1e-3), dict(apply_median=True, maxiter=1), dict(apply_median=True, maxiter=1, eps=1e-3), dict(apply_median=True, maxiter=0)):
            for nr in (False, True):
                case("dare", "ties_sum_with_dropout: probability 0", f"ties_sum_with_dropout of {n} deltas with probability=0, no_rescale={nr}, {o}", lambda c, D=D, o=o, nr=nr: M("ties_sum_with_dropout", *D(c), probability=0.0, no_rescale=nr, seed=7, **o),
                     lambda k, val, c, D=D, o=o: val(M("ties_sum_extended", *D(c), **{"k": 0.2, **o}))[k], view=finite)
                case("dare", "ties_sum_with_dropout: probability 1", f"ties_sum_with_dropout of {n} deltas with probability=1, no_rescale={nr}, {o}", lambda c, D=D, o=o, nr=nr: M("ties_sum_with_dropout", *D(c), probability=1.0, no_rescale=nr, seed=7, **o),
                     lambda k, val, c: 0, view=finite)
            for pr in (0.25, 0.9):
                case("dare", "ties_sum_with_dropout: rescale", f"ties_sum_with_dropout of {n} deltas with probability={pr}, {o}", lambda c, D=D, o=o, pr=pr: M("ties_sum_with_dropout", *D(c), probability=pr, seed=7, **o),
                     lambda k, val, c, D=D, o=o, pr=pr: mul(num(Fraction(1) / (1 - Fraction(repr(pr)))), val(M("ties_sum_with_dropout", *D(c), probability=pr, no_rescale=True, seed=7, **o))[k]), view=rounded)

    # ---- rotate
    for al in (0.0, 0.5, 1.0, -1.0, 2.0):
        for a in (0.0, 0.25, 1.0, 2.0):
            if (al, a) in ((0.0, 0.0), (1.0, 1.0)):
                continue
            case("rotate", "rotate: centroid", f"rotate(a, b, alignment={al}, alpha={a})", lambda c, al=al, a=a: M("rotate", c.model("a"), c.model("b"), alignment=al, alpha=a),
                 lambda k, val, c, al=al: (lambda have: centroid(have, k, c, al)), shapes=((3, 4), (4, 3), (5, 2)))

    def centroid(have, k, c, al):
        n = c.shape[0]
        s = lambda e: tensorlib.T("sum", e, (0,))

        # the sum of the rows is linear, and that of x @ r is (sum of the rows of x) @ r
        def total_rows(e):
            r = 0
            for mono, cf in terms.poly(e).items():
                vec = [t for t in mono if not tensorlib.scalar(t)]
                if len(vec) != 1:
                    return None
                t = vec[0]
                rest = cf
                for y in mono:
                    if y is not t:
                        rest = mul(rest, y)
                v = rows_of(t)
                if v is None:
                    return None
                r = add(r, mul(rest, v))
            return r

        def rows_of(t):
            if t._op == "@":
                inner = total_rows(t._args[0])
                return None if inner is None else lib.product(inner, t._args[1])
            if t._op == "sum" and t._args[1] == (0,):
                return mul(n, t)                      # the same in every row
            if t._op == "atom":
                return s(t)
            return None
        want = add(mul(num(1 - al), s(at("a", k))), mul(num(al), s(at("b", k))))
        if lib.close:
            have, want = substitute(have, lib.close), substitute(want, lib.close)
        got = total_rows(have)
        return got is not None and same(got, want), f"one whose centroid is {terms.show(want)}"
    B.run(rep, ((3, 4), (), (4,), (2, 3, 3, 3)) if thorough else ((3, 4), ()), RULES, 18, 300)


def rounded(e):
    """finite, with coefficients up to rounding"""
    e = finite(e)
    return tensorlib.fin({m: num(round(float(c), 9)) for m, c in terms.poly(e).items()}) if terms.is_term(e) else e
