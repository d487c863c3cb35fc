import itertools
from ..mergelib import *

LEVEL = "other"
RULES = {
    "rejected": "inputs whose merge spaces violate the declaration raise an error instead of producing a node",
    "accepted": "inputs whose merge spaces satisfy the declaration are accepted",
    "space": "the merge space of the node is the one declared for the result, or the one the declared symbol was resolved to",
    "config": "inputs whose model configs differ from each other or from the declared config raise an error when the config is determined, and a merge of them computes nothing and leaves the output untouched",
    "config accepted": "inputs whose model configs agree are accepted, and the node has that config, or the declared one",
    "dictionary": "a dictionary of recipes of different merge spaces or model configs is rejected",
}
EXPLANATION = ("Abstract interpretation of recipe construction over every declaration form (no space, one space, set, symbol, symbol shared between parameters, python values; positional, "
               "variadic, keyword-only, with default), every form of result, and every assignment of merge spaces and model configs to the inputs, given by position and by name, "
               "against a reference decision table with unification of symbols.")
ASSUMPTIONS = ["merge spaces are only compared, so that the three built-in ones represent all", "a parameter without merge space shares its space with the other parameters without one"]

SOURCE = '''
from sd_mecha import *
from sd_mecha.extensions.merge_methods import *
from sd_mecha.extensions.merge_spaces import MergeSpaceSymbol
from sd_mecha.extensions import merge_spaces
from torch import Tensor

def act(*a): pass

def symbol(*spaces):
    return MergeSpaceSymbol(*spaces)

def par(kind, space, config=None):
    t = {"tensor": Tensor, "dict": StateDict[Tensor], "float": float}[kind]
    return Parameter(t, space, config)

def ret(space, config=None):
    return Return(Tensor, space, config)

def m1(A, R):
    @merge_method(register=False)
    def f(a: A) -> R:
        return act(a)
    return f

def m2(A, B, R):
    @merge_method(register=False)
    def f(a: A, b: B) -> R:
        return act(a, b)
    return f

def m3(A, B, K, R):
    @merge_method(register=False)
    def f(a: A, b: B, *, k: K) -> R:
        return act(a, b, k)
    return f

def m2k(A, B, R):
    @merge_method(register=False)
    def f(*, a: A, b: B) -> R:
        return act(a, b)
    return f

def mv(A, V, R):
    @merge_method(register=False)
    def f(a: A, *v: V) -> R:
        return act(a, *v)
    return f

def mo(V, R):
    @merge_method(register=False)
    def f(*v: V) -> R:
        return act(*v)
    return f

def mvk(V, K, R):
    @merge_method(register=False)
    def f(*v: V, k: K, **kwargs) -> R:
        return act(*v, k)
    return f

def md(A, D, R):
    @merge_method(register=False)
    def f(a: A, d: D = 0.5, *, e: D = 0.25) -> R:
        return act(a)
    return f
'''
SPACES = ("weight", "delta", "param")
FORMS = ("none", "weight", "delta", "wd", "S", "T", "dict none", "dict weight", "float")


def allowed(form, default=False):
    """(unification group or None, allowed spaces)"""
    if form in ("none", "dict none"):
        return (None, {"param"}) if default else ("default", set(SPACES))
    if form == "float":
        return None, {"param"}
    if form == "S":
        return "S", {"weight", "delta"}
    if form == "T":
        return "T", set(SPACES)
    if form == "wd":
        return None, {"weight", "delta"}
    return None, {form.split()[-1]}


def decide(forms, spaces, ret):
    """'reject', or the merge space of the result, or None when the declaration does not determine one"""
    groups = {}
    for f, s in zip(forms, spaces):
        g, ok = allowed(f)
        if s not in ok:
            return "reject"
        if g is not None and groups.setdefault(g, s) != s:
            return "reject"
    if ret in ("S", "T"):
        return groups.get(ret)
    if ret != "none":
        return ret
    return groups.get("default")


def check(rep, tier):
    w = shared()
    p = w.prog
    m = p.source("typed", SOURCE).__dict__
    ran = []
    m["act"] = lambda *a: (ran.append(a), a[0] if a else None)[1]
    S, T = w.call(m["symbol"], "weight", "delta"), w.call(m["symbol"], *SPACES)
    S.named, T.named = "S", "T"

    def arg(form, config=None):
        kind = "float" if form == "float" else "dict" if form.startswith("dict") else "tensor"
        sp = form.split()[-1]
        return w.call(m["par"], kind, {"none": None, "float": None, "S": S, "T": T, "wd": ("weight", "delta")}.get(sp, sp), config)

    def res(form, config=None):
        return w.call(m["ret"], {"none": None, "S": S, "T": T}.get(form, form), config)

    def ident(x):
        return None if x is None else p.getattr(x, "identifier")

    def attempt(f, *a, **k):
        try:
            return p.call(f, a, k), None
        except ControlFlow:
            raise
        except Exception as e:
            return None, e

    def inputs(cfg=None):
        return {s: w.call(w.literal, {"k": w.tensor(s)}, cfg, s) for s in SPACES}

    def shape(name, forms, ret, kws):
        """a method of the given shape, for every assignment of spaces; kws: how many of the last inputs are given by name"""
        def entry():
            out = []
            nodes = inputs()
            try:
                f = p.call(m[name], (*[arg(x) for x in forms_decl[name](forms)], res(ret)), {})
            except ControlFlow:
                raise
            except Exception:
                return []          # the declaration itself is refused
            names = names_of[name](forms)
            for spaces in itertools.product(SPACES, repeat=len(forms)):
                want = decide(forms, spaces, ret)
                for kw in kws:
                    pos = [nodes[s] for s, n in zip(spaces, names) if n is None or not (n.startswith("=") or kw)]
                    named = {n.lstrip("="): nodes[s] for s, n in zip(spaces, names) if n is not None and (n.startswith("=") or kw)}
                    v, e = attempt(f, *pos, **named)
                    at = f"{name}{forms} -> {ret} called with {spaces}{' by name' if kw else ''}"
                    if want == "reject":
                        out.append(("rejected", e is not None, f"{at}: accepted with merge space {ident(p.getattr(v, 'merge_space')) if e is None else ''}"))
                    elif want is None:
                        continue
                    elif e is not None:
                        out.append(("accepted", False, f"{at}: {e!r}"))
                    else:
                        out.append(("accepted", True, at))
                        got = ident(p.getattr(v, "merge_space"))
                        out.append(("space", got == want, f"{at}: the merge space is {got} instead of {want}"))
            return out
        return [r for q in p.explore(entry) if q.kind == "return" for r in q.value]

    # declaration from the forms of the inputs; "=x" can only be given by name, None only by position
    forms_decl = {"m1": lambda f: f, "m2": lambda f: f, "m3": lambda f: f, "mv": lambda f: (f[0], f[1] if len(f) > 1 else "none"), "mo": lambda f: f[:1], "mvk": lambda f: (f[0], f[-1])}
    names_of = {"m1": lambda f: ["a"], "m2": lambda f: ["a", "b"], "m3": lambda f: ["a", "b", "=k"], "mv": lambda f: [None] * len(f), "mo": lambda f: [None] * len(f),
                "mvk": lambda f: [None] * (len(f) - 1) + ["=k"]}
    RETS = ("none", "weight", "S", "T")
    jobs = []
    for f in FORMS:
        jobs += [("m1", (f,), r, (False, True)) for r in RETS]
    for fs in itertools.product(FORMS, repeat=2):
        jobs += [("m2", fs, r, (False, True)) for r in RETS]
    sub = ("none", "weight", "wd", "S", "T", "dict none") if tier == "thorough" else ("none", "weight", "S", "dict none")
    for fs in itertools.product(sub, repeat=3):
        jobs += [("m3", fs, r, (False, True)) for r in RETS]
    vforms = ("none", "weight", "wd", "S", "T", "dict none")
    for a, v in itertools.product(vforms, vforms):
        for n in (1, 2, 3):
            jobs += [("mv", (a,) + (v,) * n, r, (False,)) for r in RETS]
    for v in vforms:
        for n in (1, 2, 3):
            jobs += [("mo", (v,) * n, r, (False,)) for r in RETS]
        for k in vforms:
            for n in (1, 2):
                jobs += [("mvk", (v,) * n + (k,), r, (False,)) for r in RETS]

    # parameters with defaults take python values, or nodes in param space
    def defaults():
        out = []
        nodes = inputs()
        for d in ("none", "float"):
            f = p.call(m["md"], (arg("none"), arg(d), res("none")), {})
            for s in SPACES:
                v, e = attempt(f, nodes[s])
                out.append(("accepted", e is None and ident(p.getattr(v, "merge_space")) == s, f"default arguments ({d}) with {s}: {e!r}"))
                for t in SPACES:
                    for kw in ("d", "e"):
                        v, e = attempt(f, nodes[s], **{kw: nodes[t]})
                        if t == "param":
                            out.append(("accepted", e is None, f"{kw} ({d}) given in param space: {e!r}"))
                        else:
                            out.append(("rejected", e is not None, f"{kw} ({d}) has a default, and is accepted in {t} space"))
                v, e = attempt(f, nodes[s], 2.0, e=3)
                out.append(("accepted", e is None and ident(p.getattr(v, "merge_space")) == s, f"python values for parameters with defaults ({d}): {e!r}"))
        return out

    # model configs
    def configs():
        out = []
        cfgs = {None: None, "a": w.config({"k": ((), False)}, "typed-a"), "b": w.config({"k": ((), False)}, "typed-b")}

        def node(c, n="x"):
            return w.call(w.literal, {"k": w.tensor(n)}, cfgs[c], "weight")
        for decl in itertools.product((None, "a", "b"), repeat=2):
            for r in (None, "a", "b"):
                f, e = attempt(m["m2"], arg("none", cfgs[decl[0]]), arg("none", cfgs[decl[1]]), res("none", cfgs[r]))
                g, e2 = attempt(m["mv"], arg("none", cfgs[decl[0]]), arg("none", cfgs[decl[1]]), res("none", cfgs[r]))
                h, e3 = attempt(m["m3"], arg("none", cfgs[decl[0]]), arg("none", cfgs[decl[0]]), arg("none", cfgs[decl[1]]), res("none", cfgs[r]))
                k2, e4 = attempt(m["m2k"], arg("none", cfgs[decl[0]]), arg("none", cfgs[decl[1]]), res("none", cfgs[r]))
                if e is not None:
                    continue
                for given in itertools.product((None, "a", "b"), repeat=2):
                    if None in given and given != (None, None) and decl != (None, None):
                        continue
                    free = [c for c, d in zip(given, decl) if d is None and c is not None]
                    wrong = any(c is not None and d is not None and c != d for c, d in zip(given, decl))
                    differ = len(set(free)) > 1
                    x, y = node(given[0], "x"), node(given[1], "y")
                    for what, mm, call in (("positional", f, lambda mm: attempt(mm, x, y)), ("by name", f, lambda mm: attempt(mm, b=y, a=x)), ("variadic", g, lambda mm: attempt(mm, x, y)),
                                           ("variadic twice", g, lambda mm: attempt(mm, x, y, y)), ("keyword-only", h, lambda mm: attempt(mm, x, x, k=y)),
                                           ("only keyword-only", k2, lambda mm: attempt(mm, a=x, b=y)), ("only keyword-only, swapped", k2, lambda mm: attempt(mm, b=y, a=x))):
                        if mm is None:
                            continue
                        at = f"parameters with configs {decl}, result {r}, inputs {given} ({what})"
                        v, e = call(mm)
                        cfg = None
                        if e is None:
                            try:
                                cfg = p.getattr(v, "model_config")
                            except ControlFlow:
                                raise
                            except Exception as x_:
                                e = x_
                        if wrong or differ:
                            out.append(("config", e is not None, f"{at}: accepted with config {ident(cfg)}"))
                            if v is not None and what == "positional":
                                # a merge of it must not compute anything
                                ran.clear()
                                w.io.orders = False
                                o = OutMapping()
                                o.d["old"] = 1
                                _, e4 = attempt(w.merge, v, output=o, threads=0, strict_weight_space=False, check_mandatory_keys=False, merge_dtype=None, merge_device=None, output_dtype=None, output_device=None)
                                out.append(("config", e4 is not None and not ran and o.d == {"old": 1} and not o.log, f"{at}: the merge {'succeeds' if e4 is None else 'has already computed or written something'}"))
                        elif None not in given and (r is None or not free or set(free) == {r}) and (all(decl) and r is not None or not any(decl)):
                            want = r or (free[0] if free else None)
                            out.append(("config accepted", e is None and ident(cfg) == ident(cfgs[want]), f"{at}: {e!r}" if e is not None else f"{at}: the config is {ident(cfg)}"))
        # deeper: the config of a merge is that of its inputs
        f = p.call(m["m2"], (arg("none"), arg("none"), res("none")), {})
        for a, b in itertools.product("ab", repeat=2):
            inner = p.call(f, (node(a), node(a)), {})
            for order in (0, 1):
                xs = [inner, node(b)][::-1 if order else 1]
                v, e = attempt(f, *xs)
                if e is None:
                    try:
                        p.getattr(v, "model_config")
                    except ControlFlow:
                        raise
                    except Exception as x_:
                        e = x_
                out.append(("config" if a != b else "config accepted", (e is not None) == (a != b), f"a merge of config {a} combined with config {b}: {e!r}"))
        return out

    def dictionaries():
        out = []
        cfgs = {"a": w.config({"k": ((), False), "l": ((), True), "n": ((), True)}, "typed-a"), "b": w.config({"k": ((), False), "l": ((), True), "n": ((), True)}, "typed-b")}
        f = p.call(m["m1"], (arg("none"), res("none")), {})
        combos = [(s, c) for s in ("weight", "delta", "param") for c in ("a", "b")]
        for n in (2, 3):
            for xs in itertools.product(combos, repeat=n):
                if n == 3 and (len(set(xs)) > 2 or xs[0] != ("weight", "a")):
                    continue
                d = {k: w.call(w.literal, {k: w.tensor(k)}, cfgs[c], s) for k, (s, c) in zip("kln", xs)}
                same = len(set(xs)) == 1
                for what, g in (("literal", lambda: attempt(w.literal, dict(d))), ("argument", lambda: attempt(f, dict(d)))):
                    v, e = g()
                    if e is None:
                        try:
                            p.getattr(v, "model_config"), p.getattr(v, "merge_space")
                        except ControlFlow:
                            raise
                        except Exception as x_:
                            e = x_
                    ok = (e is None) == same
                    if ok and same:
                        ok = ident(p.getattr(v, "merge_space")) == xs[0][0] and ident(p.getattr(v, "model_config")) == f"typed-{xs[0][1]}"
                    out.append(("dictionary", ok, f"dictionary of recipes with (space, config) {xs} as {what}: " + ("accepted" if e is None else repr(e)[:200])))
        return out

    def single(f):
        out = []
        for q in p.explore(f):
            if q.kind == "raise":
                raise q.value
            if q.kind == "return":
                out += q.value
        return out

    tasks = [lambda c=jobs[i::10]: [r for j in c for r in shape(*j)] for i in range(10)] + [lambda: single(defaults), lambda: single(configs), lambda: single(dictionaries)]
    n = 0
    for part in parallel(tasks):
        for rule, ok, msg in part:
            n += 1
            rep.obligation(rule, sample=msg[:140])
            if not ok:
                rep.violation(rule, msg.split(":")[0].split(" called")[0][:80], "sd_mecha/extensions/merge_methods.py", msg)
    rep.unit("MergeMethod.create_recipe", "MergeMethod.get_return_merge_space", "MergeMethod.get_return_config", "MergeRecipeNode", "LiteralRecipeNode", "value_to_node")
    rep.floor("declarations", len(jobs), 700)
    rep.floor("decisions", n, 8000)
