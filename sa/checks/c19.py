import itertools
from fractions import Fraction
from ..mergelib import *

LEVEL = "other"
RULES = {
    "space": "the recipe built from a documented combination of merge spaces has the documented merge space",
    "accepted": "a documented combination is accepted",
    "rejected": "an undocumented combination raises an error instead of building a recipe",
    "meaning": "the recipe combines exactly the given models in the documented way, with every option bound to the parameter it is documented for",
    "cache": "the cache given to a helper is the cache of the node it builds",
}
EXPLANATION = ("Abstract interpretation of every recipe-building helper and operator over every assignment of merge spaces to one to four models, with and without the optional base, each option omitted, given "
               "alone and given with all others, models given as nodes and as paths. The recipe graph is evaluated into a linear normal form over opaque method applications and compared with the documented formula.")
ASSUMPTIONS = ["a recipe means what its linear methods compute (subtract, add_difference, weighted_sum, n_average; decided by C27); other merge methods are opaque", "merge spaces are only compared"]
SPACES = ("weight", "delta", "param")
FILE = "sd_mecha/merge_method_wrappers.py"


# ---- linear forms: {sorted tuple of atoms: coefficient}
def num(x):
    return Fraction(repr(x)) if isinstance(x, float) else Fraction(x)


def const(x):
    return {(): num(x)} if x else {}


def atom(a):
    return {(a,): Fraction(1)}


def add(x, y, s=1):
    out = dict(x)
    for m, c in y.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c}


def mul(x, y):
    out = {}
    for m, c in x.items():
        for n, d in y.items():
            k = tuple(sorted(m + n, key=repr))
            out[k] = out.get(k, 0) + c * d
    return {m: c for m, c in out.items() if c}


def canon(x):
    return tuple(sorted(x.items(), key=repr))


def opaque(name, models, options, ordered=True):
    models = [canon(m) for m in models]
    return atom((name, tuple(models if ordered else sorted(models, key=repr)), tuple(sorted(options.items()))))


def show(x):
    def at(a):
        if isinstance(a, tuple):
            return f"{a[0]}({', '.join([show(dict(m)) for m in a[1]] + [f'{k}={v}' for k, v in a[2]])})"
        return str(a)
    return " + ".join("*".join(([] if c == 1 and m else [str(float(c))]) + [at(a) for a in m]) for m, c in sorted(x.items(), key=repr)) or "0"


UNORDERED = {"ties_sum", "clamp"}
EXT = dict(k=0.2, vote_sgn=False, apply_stock=False, apply_median=False, cos_eps=1e-6, eps=1e-6, maxiter=100, ftol=1e-20)


def check(rep, tier):
    w = shared()
    p = w.prog
    op = {n: anchor(p, f"sd_mecha.{n}") for n in ("add_difference", "add_perpendicular", "add_difference_ties", "add_difference_ties_extended", "copy_region", "tensor_sum", "rotate", "dropout", "ties_with_dare", "n_model_stock")}
    names = {}

    def meaning(node):
        """linear form or python value of a node"""
        v = p.getattr(node, "value") if hasattr_(node, "value") else None
        if id(node) in names:
            return atom(names[id(node)][1])
        if hasattr_(node, "path"):
            return atom(str(p.getattr(node, "path")).split("/")[-1])
        if hasattr_(node, "value"):
            return v
        mm = p.getattr(node, "merge_method")
        ident = p.getattr(mm, "identifier")
        pn = p.call(p.getattr(mm, "get_param_names"), (), {})
        pos = list(p.getattr(pn, "args"))
        args = list(p.getattr(node, "args"))
        bound = dict(zip(pos, args))
        rest = args[len(pos):]
        bound.update(dict(p.getattr(node, "kwargs")))
        val = {k: meaning(x) for k, x in bound.items()}
        rest = [meaning(x) for x in rest]

        def lin(x):
            return x if isinstance(x, dict) else const(x)
        if ident == "subtract":
            return add(lin(val["a"]), lin(val["b"]), -1)
        if ident == "add_difference":
            return add(lin(val["a"]), mul(lin(val["alpha"]), lin(val["b"])))
        if ident == "weighted_sum":
            al = lin(val["alpha"])
            return add(lin(val["a"]), mul(al, add(lin(val["b"]), lin(val["a"]), -1)))
        if ident == "n_average":
            out = {}
            for r in rest:
                out = add(out, lin(r))
            return {m: c / len(rest) for m, c in out.items()}
        if ident == "cast" and val.get("device") is None and val.get("dtype") is None:
            return val["a"]
        models = [val[k] for k in pos if isinstance(val[k], dict)] + rest
        opts = {k: (v if not isinstance(v, dict) else canon(v)) for k, v in val.items() if not (k in pos and isinstance(v, dict))}
        if ident in ("dropout", "ties_sum_with_dropout") and opts.get("seed", 0) is None:
            opts["seed"] = None
        if ident == "clamp":
            models = models[:1] + sorted(models[1:], key=lambda m: repr(canon(m)))
            return opaque(ident, models, opts)
        return opaque(ident, models, opts, ident not in UNORDERED)

    def hasattr_(node, n):
        try:
            p.getattr(node, n)
            return True
        except ControlFlow:
            raise
        except Exception:
            return False

    def find(node, ident):
        if id(node) in names or not hasattr_(node, "merge_method"):
            return []
        out = [node] if p.getattr(p.getattr(node, "merge_method"), "identifier") == ident else []
        for x in [*p.getattr(node, "args"), *dict(p.getattr(node, "kwargs")).values()]:
            out += find(x, ident)
        return out

    def attempt(f, *a, **k):
        try:
            return p.call(f, a, k), None
        except ControlFlow:
            raise
        except Exception as e:
            return None, e

    cfg = [None]
    alive = []

    def inp(space, name):
        n = w.call(w.literal, {"k": w.tensor(name)}, cfg[0], space)
        names[id(n)] = (n, name)
        alive.append(n)
        return n

    def judge(at, v, e, want, out):
        """want: None (rejected) or (space, form)"""
        if want is None:
            out.append(("rejected", e is not None, f"{at}: accepted" + ("" if e else f" with meaning {show(lin_(meaning(v)))[:200]}")))
            return
        if e is not None:
            out.append(("accepted", False, f"{at}: {e!r}"))
            return
        out.append(("accepted", True, at))
        space, form = want
        got = p.getattr(p.getattr(v, "merge_space"), "identifier")
        out.append(("space", got == space, f"{at}: the merge space is {got} instead of {space}"))
        m = lin_(meaning(v))
        out.append(("meaning", m == form, f"{at}: computes {show(m)[:300]} instead of {show(form)[:300]}"))

    def lin_(x):
        return x if isinstance(x, dict) else const(x)

    A, B, C = (atom(x) for x in "abc")

    def optsets(options):
        """omitted, each alone (given by value), all together"""
        yield {}
        for k, vs in options.items():
            for v in vs:
                yield {k: v}
        yield {k: vs[0] for k, vs in options.items()}
        yield {k: vs[-1] for k, vs in options.items()}

    def al(x):
        """alpha: a number or an input node"""
        return atom(names[id(x)][1]) if id(x) in names else const(x)

    def two_three(out):
        alpha_node = inp("param", "alpha")
        for spaces in itertools.product(SPACES, repeat=2):
            a, b = inp(spaces[0], "a"), inp(spaces[1], "b")
            for o in optsets({"alpha": [0.37, alpha_node, 0.0, 1.0, -2], "clamp_to_ab": [True, False]}):
                f = add(A, mul(al(o.get("alpha", 1.0)), B))
                want = ("weight", f) if spaces == ("weight", "delta") and not o.get("clamp_to_ab") else None
                for how, call in (("", lambda: attempt(op["add_difference"], a, b, **o)), (" by name", lambda: attempt(op["add_difference"], a=a, b=b, **o)), (" with c=None", lambda: attempt(op["add_difference"], a, b, None, **o))):
                    judge(f"add_difference({', '.join(spaces)}){how} with {texts(o)}", *call(), want, out)
            for name in ("copy_region", "tensor_sum"):
                for o in optsets({"width": [0.3], "offset": [0.7], "top_k": [True, False]}):
                    f = opaque("top_k_tensor_sum" if o.get("top_k") else "tensor_sum", [A, B], {"width": o.get("width", 1.0), "offset": o.get("offset", 0.0)})
                    judge(f"{name}({', '.join(spaces)}) with {texts(o)}", *attempt(op[name], a, b, **o), (spaces[0], f) if spaces[0] == spaces[1] else None, out)
            for o in optsets({"alignment": [0.3, 2], "alpha": [0.6]}):
                f = opaque("rotate", [A, B], {"alignment": o.get("alignment", 1.0), "alpha": o.get("alpha", 0.0)})
                judge(f"rotate({', '.join(spaces)}) with {texts(o)}", *attempt(op["rotate"], a, b, **o), (spaces[0], f) if spaces[0] == spaces[1] else None, out)
            # operators
            for sym, meth, want in (("+", "__add__", ("weight", add(A, B)) if set(spaces) == {"weight", "delta"} else None), ("-", "__sub__", ("delta", add(A, B, -1)) if spaces == ("weight",) * 2 else None),
                                    ("|", "__or__", (spaces[0], opaque("fallback", [A, B], {})) if spaces[0] == spaces[1] else None)):
                judge(f"{spaces[0]} {sym} {spaces[1]}", *attempt(p.getattr(a, meth), b), want, out)
                r = {"+": "__radd__", "-": "__rsub__", "|": "__ror__"}[sym]
                judge(f"{spaces[0]} {sym} {spaces[1]} (reflected)", *attempt(p.getattr(b, r), a), want, out)
        # operands that become nodes
        P_ = atom("p.safetensors")
        for s in SPACES:
            a, path = inp(s, "a"), APath("/models/p.safetensors")
            judge(f"{s} + path", *attempt(p.getattr(a, "__add__"), path), ("weight", add(A, P_)) if s == "delta" else None, out)
            judge(f"path + {s}", *attempt(p.getattr(a, "__radd__"), path), ("weight", add(A, P_)) if s == "delta" else None, out)
            judge(f"{s} - path", *attempt(p.getattr(a, "__sub__"), path), ("delta", add(A, P_, -1)) if s == "weight" else None, out)
            judge(f"path - {s}", *attempt(p.getattr(a, "__rsub__"), path), ("delta", add(P_, A, -1)) if s == "weight" else None, out)
            judge(f"{s} | path", *attempt(p.getattr(a, "__or__"), path), ("weight", opaque("fallback", [A, P_], {})) if s == "weight" else None, out)
            judge(f"path | {s}", *attempt(p.getattr(a, "__ror__"), path), ("weight", opaque("fallback", [P_, A], {})) if s == "weight" else None, out)
        for spaces in itertools.product(SPACES, repeat=3):
            a, b, c = (inp(s, n) for s, n in zip(spaces, "abc"))
            ok = spaces == ("weight",) * 3
            diff = add(B, C, -1)
            for o in optsets({"alpha": [0.37, alpha_node, 0.0, 1.0, -2], "clamp_to_ab": [True, False]}):
                f = add(A, mul(al(o.get("alpha", 1.0)), diff))
                if o.get("clamp_to_ab"):
                    f = opaque("clamp", [f] + sorted([A, B], key=lambda m: repr(canon(m))), {"stiffness": 0.0})
                for how, call in (("", lambda: attempt(op["add_difference"], a, b, c, **o)), (" by name", lambda: attempt(op["add_difference"], c=c, b=b, a=a, **o))):
                    judge(f"add_difference({', '.join(spaces)}){how} with {texts(o)}", *call(), ("weight", f) if ok else None, out)
            for o in optsets({"alpha": [0.37, alpha_node]}):
                f = add(A, mul(al(o.get("alpha", 1.0)), opaque("perpendicular_component", [add(A, C, -1), add(B, C, -1)], {})))
                judge(f"add_perpendicular({', '.join(spaces)}) with {texts(o)}", *attempt(op["add_perpendicular"], a, b, c, **o), ("weight", f) if ok else None, out)
            for name in ("copy_region", "tensor_sum"):
                for o in optsets({"width": [0.3], "offset": [0.7], "top_k": [True, False]}):
                    f = add(C, opaque("top_k_tensor_sum" if o.get("top_k") else "tensor_sum", [add(A, C, -1), add(B, C, -1)], {"width": o.get("width", 1.0), "offset": o.get("offset", 0.0)}))
                    judge(f"{name}({', '.join(spaces)}) with {texts(o)}", *attempt(op[name], a, b, c, **o), ("weight", f) if ok else None, out)
            for o in optsets({"alignment": [0.3, 2], "alpha": [0.6]}):
                f = add(C, opaque("rotate", [add(A, C, -1), add(B, C, -1)], {"alignment": o.get("alignment", 1.0), "alpha": o.get("alpha", 0.0)}))
                judge(f"rotate({', '.join(spaces)}) with {texts(o)}", *attempt(op["rotate"], a, b, c, **o), ("weight", f) if ok else None, out)
        # caches
        a, b, c = (inp("weight", n) for n in "abc")
        for args in ((a, b), (a, b, c)):
            for cache in ({}, {"k": 1}):
                v, e = attempt(op["rotate"], *args, cache=cache)
                got = [] if e else [p.getattr(n, "cache") for n in find(v, "rotate")]
                out.append(("cache", len(got) == 1 and got[0] is cache, f"rotate of {len(args)} models with a cache: the rotation has cache {got}"))
            v, e = attempt(op["rotate"], *args)
            got = [] if e else [p.getattr(n, "cache") for n in find(v, "rotate")]
            out.append(("cache", got == [None], f"rotate of {len(args)} models without cache: the rotation has cache {got}"))

    def texts(o):
        return ", ".join(f"{k}={names[id(v)][1] if id(v) in names else v}" for k, v in o.items()) or "no options"

    # ---- model-relative helpers: name -> (options, form from (deltas, options), whether deltas are allowed as models)
    def ext(o, ident, d, extra=()):
        return opaque(ident, d, {**{k: o.get(k, v) for k, v in EXT.items()}, **dict(extra)})
    many = {
        "add_difference_ties": ({"alpha": [0.37, 0.0], "k": [0.3]}, lambda d, o: opaque("ties_sum", d, {"k": o.get("k", 1.0), "vote_sgn": False}, False), 1.0, True, 1),
        "add_difference_ties_extended": ({"alpha": [0.37], "k": [0.3], "vote_sgn": [True, False], "apply_stock": [True, False], "cos_eps": [0.01], "apply_median": [True, False], "eps": [0.02], "maxiter": [7], "ftol": [0.03]},
                                         lambda d, o: ext(o, "ties_sum_extended", d), 1.0, True, 1),
        "dropout": ({"probability": [0.3], "alpha": [0.37], "overlap": [0.4], "overlap_emphasis": [0.6], "seed": [11, 0]},
                    lambda d, o: opaque("dropout", d, {"probability": o.get("probability", 0.9), "rescale": 1.0, "overlap": o.get("overlap", 1.0), "overlap_emphasis": o.get("overlap_emphasis", 0.0), "seed": o.get("seed")}), 0.5, False, 1),
        "ties_with_dare": ({"probability": [0.3], "rescale": [False, True], "alpha": [0.37], "seed": [11, 0], "k": [0.3], "vote_sgn": [True, False], "apply_stock": [True, False], "cos_eps": [0.01], "apply_median": [True, False],
                            "eps": [0.02], "maxiter": [7], "ftol": [0.03]},
                           lambda d, o: ext({"k": 1.0, **o}, "ties_sum_with_dropout", d, {"probability": o.get("probability", 0.9), "no_rescale": not o.get("rescale", True), "seed": o.get("seed")}.items()), 1.0, True, 1),
        "n_model_stock": ({"cos_eps": [0.01]}, lambda d, o: opaque("model_stock", d, {"cos_eps": o.get("cos_eps", 1e-6)}), None, True, 1),
    }

    def relative(name, out):
        options, form, alpha0, deltas_ok, least = many[name]
        alpha_node = inp("param", "alpha")
        if "alpha" in options:
            options = {**options, "alpha": options["alpha"] + [alpha_node]}
        for n in (1, 2, 3, 4):
            for spaces in itertools.product(SPACES, repeat=n + 1):
                if n >= 3 and "param" in spaces or n == 4 and spaces[0] != "weight":
                    continue
                base = inp(spaces[0], "base")
                models = [inp(s, f"m{i}") for i, s in enumerate(spaces[1:])]
                ok = spaces[0] == "weight" and all(s == "weight" or deltas_ok and s == "delta" for s in spaces[1:])
                for o in optsets(options) if n <= 2 or ok and n == 3 else [{}]:
                    d = [add(atom(f"m{i}"), atom("base"), -1) if s == "weight" else atom(f"m{i}") for i, s in enumerate(spaces[1:])]
                    want = None
                    if ok:
                        scale = al(o.get("alpha", alpha0)) if alpha0 is not None else const(1.0)
                        want = ("weight", add(atom("base"), mul(scale, form(d, o))))
                    judge(f"{name}({', '.join(spaces)}) with {texts(o)}", *attempt(op[name], base, *models, **o), want, out)
        # the same model more than once
        m0, base = inp("weight", "m0"), inp("weight", "base")
        for given, forms in (((m0, m0), [add(atom("m0"), atom("base"), -1)] * 2), ((base, m0), [{}, add(atom("m0"), atom("base"), -1)]), ((m0, base, m0), [add(atom("m0"), atom("base"), -1), {}, add(atom("m0"), atom("base"), -1)])):
            want = ("weight", add(atom("base"), mul(const(1.0 if alpha0 is None else alpha0), form(forms, {}))))
            judge(f"{name}(base, {', '.join(names[id(x)][1] for x in given)})", *attempt(op[name], base, *given), want, out)
        # models given as paths
        base = APath("/models/base.safetensors")
        paths = [APath(f"/models/n{i}.safetensors") for i in range(2)]
        bn, ns = atom("base.safetensors"), [atom(f"n{i}.safetensors") for i in range(2)]
        want = ("weight", add(bn, mul(const(1.0 if alpha0 is None else alpha0), form([add(x, bn, -1) for x in ns], {}))))
        judge(f"{name}(paths)", *attempt(op[name], base, *paths), want, out)

    def run(f):
        def entry():
            w.fresh()
            names.clear()
            alive.clear()
            cfg[0] = w.config({"k": ((), False)}, "typed-a")
            out = []
            f(out)
            return out
        out = []
        for q in p.explore(entry):
            if q.kind == "raise":
                raise q.value
            if q.kind == "return":
                out += q.value
        return out

    n = 0
    for part in parallel([lambda: run(two_three)] + [lambda h=h: run(lambda out: relative(h, out)) for h in many]):
        for rule, ok, msg in part:
            n += 1
            rep.obligation(rule, sample=msg[:160])
            if not ok:
                rep.violation(rule, msg.split(" with ")[0].split(":")[0][:80], FILE, msg)
    rep.unit(*op, "RecipeNode.__add__", "RecipeNode.__radd__", "RecipeNode.__sub__", "RecipeNode.__rsub__", "RecipeNode.__or__", "RecipeNode.__ror__")
    rep.floor("decisions", n, 3000)
