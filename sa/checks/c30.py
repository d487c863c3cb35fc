import inspect
import itertools
from ..mergelib import *

LEVEL = "other"
RULES = {
    "accepts": "a call that Python would accept builds a recipe, any other call is rejected",
    "binds": "each parameter of the merge function receives the value Python's call rules bind to it",
    "context": "a merge function accepting extra keywords receives the key, and others do not",
}
EXPLANATION = ("Abstract interpretation of recipe construction and evaluation over all signatures with up to two positional parameters (required or default), optional "
               "varargs, up to two keyword-only parameters and optional **kwargs, and all calls with up to three (thorough: four) positional and two (three) "
               "keyword arguments, including unknown and repeated names; the oracle is Python's own binding of the same signature.")
ASSUMPTIONS = ["binding depends on the number and names of arguments, not on their values"]

P1 = {"r": "p1: Parameter(Tensor, 'param')", "d": "p1: Parameter(float) = 1.5"}
P2 = {"r": "p2: Parameter(Tensor, 'param')", "d": "p2: Parameter(Tensor, 'param') = None"}
K1, K2 = "k1: Parameter(Tensor, 'param')", "k2: Parameter(str) = 'default text'"
TYPES = {("p1", "r"): "t", ("p1", "d"): "f", ("p2", "r"): "t", ("p2", "d"): "t", ("k1", "r"): "t", ("k2", "d"): "s"}


def signatures():
    for pos in ((), ("r",), ("d",), ("r", "r"), ("r", "d"), ("d", "d")):
        for var in (False, True):
            for kwo in ((), ("k1",), ("k2",), ("k1", "k2")):
                for kws in (False, True):
                    if pos or var or kwo:
                        yield pos, var, kwo, kws


def source(i, sig):
    pos, var, kwo, kws = sig
    ps = [P[k] for P, k in zip((P1, P2), pos)]
    if var:
        ps.append("*rest: Parameter(Tensor, 'param')")
    elif kwo:
        ps.append("*")
    ps += [{"k1": K1, "k2": K2}[k] for k in kwo]
    if kws:
        ps.append("**extra")
    names = [f"p{j + 1}=p{j + 1}" for j in range(len(pos))] + (["rest=rest"] if var else []) + [f"{k}={k}" for k in kwo] + (["extra=extra"] if kws else [])
    return f"@merge_method(register=False)\ndef f{i}({', '.join(ps)}) -> Return(Tensor, 'weight'):\n    return saw(dict({', '.join(names)}))\n"


def oracle(sig):
    pos, var, kwo, _ = sig
    ps = [inspect.Parameter(f"p{j + 1}", inspect.Parameter.POSITIONAL_OR_KEYWORD, default=inspect.Parameter.empty if k == "r" else (1.5, None)[j]) for j, k in enumerate(pos)]
    if var:
        ps.append(inspect.Parameter("rest", inspect.Parameter.VAR_POSITIONAL))
    ps += [inspect.Parameter(k, inspect.Parameter.KEYWORD_ONLY, default=inspect.Parameter.empty if k == "k1" else "default text") for k in kwo]
    return inspect.Signature(ps)


def check(rep, tier):
    sigs = list(signatures())
    w = World()
    w.act = lambda name, key, *a: a[0]
    try:
        mod = w.prog.source("signatures", "from sd_mecha import *\nfrom torch import Tensor\n" + "".join(source(i, s) for i, s in enumerate(sigs)))
    except (ControlFlow, EngineError):
        raise
    except Exception as e:
        raise Broken(f"a legal signature is refused by merge_method: {e!r}")
    seen = []

    def saw(d):
        seen.append(d)
        return ATensor("r", 2, models.DTYPES["float32"], models.Size((2,)), True, True, ("r",))
    mod.__dict__["saw"] = saw
    npos, nkw = (3, 2) if tier == "quick" else (4, 3)

    def one(i):
        sig = sigs[i]
        bind = oracle(sig)
        pos, var, kwo, kws = sig
        text = source(i, sig).split("\n")[1]
        out = []
        for np in range(npos + 1):
            for k in range(nkw + 1):
                for names in itertools.permutations(("p1", "p2", "k1", "k2", "nope", "rest"), k):
                    if k > 1 and list(names) != sorted(names) and "p1" not in names:
                        continue

                    def entry():
                        seen.clear()
                        w.fresh()
                        w.io.orders = False

                        def value(tag, name, kind):
                            kk = TYPES.get((name, kind), "t")
                            return w.tensor(f"value {tag}") if kk == "t" else 100.5 + len(tag) if kk == "f" else f"text {tag}"
                        kinds = dict(zip(("p1", "p2"), pos)) | {"k1": "r", "k2": "d"}
                        args = [value(f"#{j}", f"p{j + 1}", kinds.get(f"p{j + 1}")) for j in range(np)]
                        kw = {n: value(n, n, kinds.get(n)) for n in names}
                        try:
                            want = bind.bind(*args, **kw)
                            want.apply_defaults()
                            want = dict(want.arguments)
                        except TypeError:
                            want = None
                        call = f"f({', '.join(['...'] * np + [n + '=...' for n in names])})"
                        try:
                            node = w.prog.call(getattr(mod, f"f{i}"), tuple(args), dict(kw))
                        except ControlFlow:
                            raise
                        except Exception as e:
                            return [("accepts", want is None, f"{call} is rejected with {type(e).__name__}: {e}")]
                        if want is None:
                            return [("accepts", False, f"{call} is accepted")]
                        w.file("A.safetensors", ("kk",))
                        A = w.node("A.safetensors", w.config({"kk": ((), False)}))
                        try:
                            w.run(w.call(w.m.two, A, node), merge_dtype=None, merge_device=None, output_dtype=None, output_device=None, threads=0, check_finite=False)
                        except ControlFlow:
                            raise
                        except Exception as e:
                            return [("binds", False, f"{call} cannot be evaluated: {e!r}")]
                        got = dict(seen[0]) if len(seen) == 1 else None
                        if got is None:
                            return [("binds", False, f"{call}: the merge function ran {len(seen)} times for one key")]
                        extra = got.pop("extra", None)
                        same = set(got) == set(want) and all(match(got[n], want[n]) for n in want)
                        r = [("accepts", True, ""), ("binds", same, f"{call} passes {brief(got)} instead of {brief(want)}")]
                        if kws:
                            r.append(("context", isinstance(extra, dict) and extra.get("key") == "kk", f"{call}: the merge function receives {extra} as extra keywords"))
                        return r
                    for p in w.prog.explore(entry):
                        if p.kind == "raise":
                            raise p.value
                        if p.kind == "return":
                            out += [(r, ok, f"{m} for {text}") for r, ok, m in p.value]
        return out

    def match(a, b):
        if isinstance(b, ATensor):
            return isinstance(a, ATensor) and content(a) == content(b)
        if isinstance(b, tuple):
            return isinstance(a, (tuple, list)) and len(a) == len(b) and all(map(match, a, b))
        return type(a) is type(b) and a == b

    def brief(d):
        return {k: brief({"": v})[""] if not isinstance(v, (ATensor, tuple)) and False else (v.name if isinstance(v, ATensor) else [x.name if isinstance(x, ATensor) else x for x in v] if isinstance(v, (tuple, list)) else v)
                for k, v in d.items()}

    chunks = [list(range(len(sigs)))[i::8] for i in range(8)]
    n = 0
    for res in parallel([lambda c=c: [(i, r) for i in c for r in one(i)] for c in chunks]):
        for i, (rule, ok, msg) in res:
            n += 1
            rep.obligation(rule, sample=source(i, sigs[i]).split("\n")[1])
            if not ok:
                rep.violation(rule, "merge method call", "sd_mecha/extensions/merge_methods.py", msg)
    rep.floor("signatures", len(sigs), 90)
    rep.floor("calls", n, 3000)
