import itertools
from ..mergelib import *

LEVEL = "other"
RULES = {
    "fallback": "the merged value of a key is that of the first input, or that of the second when the first is missing the key; a key missing from both is left out",
    "errors": "any other error of the first input reaches the caller instead of selecting the second",
    "pick": "picking a component yields the keys of that component that the input has, with their values, and nothing else",
    "omit": "omitting a component yields the keys of the other components that the input has, with their values, and nothing else",
    "unknown": "an unknown component name raises an error",
}
EXPLANATION = ("Abstract interpretation of whole merges over fallback (as function, operator, option of merge, chained, nested, below and above other merge methods), pick_component and omit_component, "
               "for every pattern of present, missing and failing keys in the inputs and every component, compared with the stated decision table.")
ASSUMPTIONS = ["keys are only looked up by name, so that two to four keys per component represent all"]

SOURCE = '''
from sd_mecha import *
from sd_mecha.extensions.merge_methods import *
from torch import Tensor

def act(*a): pass

@merge_method(register=False)
def through(a: Parameter(Tensor), **kwargs) -> Return(Tensor):
    return act("through", kwargs["key"], a)

@merge_method(register=False)
def lookup(a: Parameter(StateDict[Tensor]), **kwargs) -> Return(Tensor):
    return act("lookup", kwargs["key"], a[kwargs["key"]])

@merge_method(register=False)
def failing(a: Parameter(Tensor), **kwargs) -> Return(Tensor):
    return act("failing", kwargs["key"], a)

@merge_method(register=False)
def absent(a: Parameter(Tensor), **kwargs) -> Return(Tensor):
    return act("absent", kwargs["key"], a)
'''
FILE = "sd_mecha/extensions/builtin/merge_methods/__init__.py"
OPTS = dict(merge_dtype=None, merge_device=None, output_dtype=None, output_device=None, check_mandatory_keys=False, strict_weight_space=False)


def check(rep, tier):
    w = shared()
    p = w.prog
    m = p.source("selecting", SOURCE).__dict__
    lib = {n: anchor(p, f"sd_mecha.{n}") for n in ("fallback", "pick_component", "omit_component")}
    failure = [ValueError]

    def act(name, key, a):
        if name == "failing":
            raise failure[0](f"failing {key}")
        if name == "absent":
            raise p.call(w.missing, (key,), {})
        return a
    m["act"] = act

    def merged(recipe, **opts):
        """({key: tensor name}, error)"""
        o = OutMapping()
        try:
            w.call(w.merge, recipe, output=o, threads=opts.pop("threads", 0), **{**OPTS, **opts})
        except ControlFlow:
            raise
        except Exception as e:
            return None, e
        return {k: getattr(v, "name", v) for k, v in o.d.items()}, None

    def lit(keys, cfg, name):
        return w.call(w.literal, {k: w.tensor(f"{name}.{k}") for k in keys}, cfg, "weight")

    def named(t):
        """the origin of a tensor"""
        return getattr(t, "name", None) or terms.show(t)

    # ---- fallback: every pattern over (first, second, third)
    KINDS = ("present", "missing", "absent", "failing", "lookup missing", "through", "failing key error")

    def model(kind, name, cfg):
        """a node for which the key k is as described"""
        if kind == "present":
            return lit(["k", "always"], cfg, name)
        if kind == "missing":
            return lit(["always"], cfg, name)
        if kind == "through":
            return w.call(m["through"], lit(["k", "always"], cfg, name))
        if kind == "lookup missing":
            return w.call(m["lookup"], lit(["always"], cfg, name))
        return w.call(m["absent" if kind == "absent" else "failing"], lit(["k", "always"], cfg, name))

    def outcome(kinds):
        for i, k in enumerate(kinds):
            if k in ("present", "through"):
                return f"{'abc'[i]}.k"
            if k.startswith("failing"):
                return "error"
        return None

    def forms(n):
        f, o = lib["fallback"], w.either
        if n == 2:
            return {"fallback(a, b)": lambda a, b: (w.call(f, a, b), {}), "a | b": lambda a, b: (o(a, b), {}), "merge(a, fallback_model=b)": lambda a, b: (a, {"fallback_model": b}),
                    "fallback(a, default=b)": lambda a, b: (w.call(f, a, default=b), {}), "through(a | b)": lambda a, b: (w.call(m["through"], o(a, b)), {}),
                    "lookup(a | b)": lambda a, b: (w.call(m["lookup"], o(a, b)), {}), "lookup(a) | through(b)": lambda a, b: (o(w.call(m["lookup"], a), w.call(m["through"], b)), {})}
        return {"(a | b) | c": lambda a, b, c: (o(o(a, b), c), {}), "a | (b | c)": lambda a, b, c: (o(a, o(b, c)), {}), "merge(a | b, fallback_model=c)": lambda a, b, c: (o(a, b), {"fallback_model": c}),
                "through(a | b) | c": lambda a, b, c: (o(w.call(m["through"], o(a, b)), c), {})}

    def fall(kinds, optional, threads):
        out = []
        cfg = w.config({"k": ((), optional), "always": ((), True)}, "select-a")
        failure[0] = KeyError if any(k == "failing key error" for k in kinds) else ValueError
        for name, f in forms(len(kinds)).items():
            recipe, opts = f(*[model(k, "abc"[i], cfg) for i, k in enumerate(kinds)])
            got, e = merged(recipe, threads=threads, **opts)
            want = outcome(kinds)
            at = f"{name} with the key {', '.join(kinds)}"
            if want == "error" or any(k in ("failing", "failing key error", "absent") for k in kinds[:1]) and want != "error":
                # "always" fails or is absent as well
                if want == "error":
                    out.append(("errors", e is not None and "failing" in str(e) + repr(e), f"{at}: {'returns ' + str(got) if e is None else repr(e)}"))
                    continue
            if any(k.startswith("failing") for k in kinds):
                # the failing input is only reached for keys the ones before it are missing
                if e is not None:
                    out.append(("fallback", False, f"{at}: {e!r}"))
                else:
                    out.append(("fallback", got.get("k") == want, f"{at}: the value is {got.get('k')}"))
                continue
            out.append(("fallback", e is None and got.get("k") == want, f"{at}: {repr(e) if e is not None else 'the value is ' + str(got.get('k'))}"))
            if e is None:
                first = next((i for i, k in enumerate(kinds) if k != "absent"), None)
                out.append(("fallback", got.get("always") == (None if first is None else f"{'abc'[first]}.always"), f"{at}: the value of a key present in all is {got.get('always')}"))
                out.append(("fallback", set(got) <= {"k", "always"}, f"{at}: the keys are {sorted(got)}"))
        return out

    # ---- components
    COMPS = {"text": ["text.k", "text.l"], "text2": ["text2.k"], "unet": ["k", "unet.l", "l"], "vae": ["vae.k"], "Empty": []}
    ALL = [k for ks in COMPS.values() for k in ks]

    def components(present, threads):
        out = []
        cfg = w.config(None, "select-b", {n: {k: ((), False) for k in ks} for n, ks in COMPS.items()})
        a = lit([k for k in ALL if k in present], cfg, "a")
        sources = {"a": a, "through(a)": w.call(m["through"], a)}
        ways = {"by position": lambda f, x, c: w.call(f, x, c), "by name": lambda f, x, c: w.call(f, a=x, component=c), "as a literal": lambda f, x, c: w.call(f, x, w.call(w.literal, c))}
        for (sname, s), (wname, way) in itertools.product(sources.items(), ways.items()):
            for c in COMPS:
                for rule, fn, keys in (("pick", "pick_component", COMPS[c]), ("omit", "omit_component", [k for k in ALL if k not in COMPS[c]])):
                    got, e = merged(way(lib[fn], s, c), threads=threads)
                    want = {k: f"a.{k}" for k in keys if k in present}
                    out.append((rule, e is None and got == want, f"{fn}({sname}, {c!r}) {wname} of a model with {len(present)} keys: {repr(e) if e is not None else 'yields ' + str(sorted(got.items()))[:200]}"))
            for c in () if threads else ("tex", "TEXT", "", "text ", "main", "empty", "select-b"):
                for fn in ("pick_component", "omit_component"):
                    try:
                        got, e = merged(way(lib[fn], s, c), threads=threads)
                    except ControlFlow:
                        raise
                    except Exception as x:
                        got, e = None, x
                    if present:
                        out.append(("unknown", e is not None, f"{fn}({sname}, {c!r}) {wname}: yields {got}"))
        return out

    def combined():
        out = []
        cfg = w.config(None, "select-b", {n: {k: ((), False) for k in ks} for n, ks in COMPS.items()})
        a, b = lit(ALL, cfg, "a"), lit(ALL, cfg, "b")
        pick, omit = (lambda x, c: w.call(lib["pick_component"], x, c)), (lambda x, c: w.call(lib["omit_component"], x, c))
        A, B = {k: f"a.{k}" for k in ALL}, {k: f"b.{k}" for k in ALL}
        for c, d in itertools.product(COMPS, repeat=2):
            inc = {k: v for k, v in A.items() if k in COMPS[c]}
            exc = {k: v for k, v in A.items() if k not in COMPS[c]}
            for what, node, want in (
                    ("pick | b", w.either(pick(a, c), b), {**B, **inc}), ("omit | b", w.either(omit(a, c), b), {**B, **exc}),
                    ("pick | omit", w.either(pick(a, c), omit(b, c)), {**inc, **{k: v for k, v in B.items() if k not in COMPS[c]}}),
                    ("pick of pick", pick(pick(a, c), d), {k: v for k, v in inc.items() if k in COMPS[d]}), ("omit of pick", omit(pick(a, c), d), {k: v for k, v in inc.items() if k not in COMPS[d]}),
                    ("omit of omit", omit(omit(a, c), d), {k: v for k, v in exc.items() if k not in COMPS[d]}), ("pick of fallback", pick(w.either(omit(a, c), b), c), {k: B[k] for k in COMPS[c]}),
                    ("through of pick", w.call(m["through"], pick(a, c)), inc), ("lookup of omit", w.call(m["lookup"], omit(a, c)), exc)):
                got, e = merged(node)
                out.append(("pick" if "pick" in what else "omit", e is None and got == want, f"{what} with components {c!r}, {d!r}: {repr(e) if e is not None else str(sorted(got.items()))[:200]}"))
        return out

    def single(f):
        out = []
        w.io.orders = False
        for q in p.explore(lambda: (w.fresh(), f())[1]):
            if q.kind == "raise":
                raise q.value
            if q.kind == "return":
                out += q.value
        return out

    tasks = []
    for kinds in itertools.product(KINDS, repeat=2):
        for optional in (False, True):
            tasks.append(lambda k=kinds, o=optional: single(lambda: fall(k, o, 0)))
        if not any(k.startswith("failing") for k in kinds):
            tasks.append(lambda k=kinds: single(lambda: fall(k, False, 2)))
    for kinds in itertools.product(KINDS if tier == "thorough" else KINDS[:5], repeat=3):
        tasks.append(lambda k=kinds: single(lambda: fall(k, False, 0)))
    for present in (tuple(ALL), tuple(ALL[::2]), ("text.k",), ("k", "l"), ()):
        for threads in (0, 2):
            tasks.append(lambda s=present, t=threads: single(lambda: components(s, t)))
    tasks.append(lambda: single(combined))
    n = 0
    for part in parallel([lambda ts=tasks[i::12]: [r for t in ts for r in t()] for i in range(12)]):
        for rule, ok, msg in part:
            n += 1
            rep.obligation(rule, sample=msg[:140])
            if not ok:
                rep.violation(rule, msg.split(":")[0].split(" with ")[0].split(" of a model")[0][:80], FILE, msg)
    rep.unit("fallback", "pick_component", "omit_component", "RecipeNode.__or__", "merge(fallback_model)", "ModelConfig.components")
    rep.floor("decisions", n, 2000)
