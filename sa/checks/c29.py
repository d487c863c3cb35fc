import itertools
from ..mergelib import *

LEVEL = "other"
RULES = {
    "value": "a key is read from its own name or else from the first of its aliases that is present",
    "named": "a key present under no name raises the library's missing-key error naming the requested key",
    "output": "the output has exactly the keys of the config that are present under one of their names",
}
EXPLANATION = ("Abstract interpretation of merging and of lookups by merge functions for every subset of {key, first alias, second alias} present in a model, for keys "
               "with zero to two aliases, every kind of container (file, dictionary of tensors, of numbers, of recipes), read directly, through state dict parameters "
               "and through intermediate merges.")
ASSUMPTIONS = ["lookup depends on the presence of names, not on the names themselves"]

SOURCE = '''
from sd_mecha import *
from torch import Tensor

@merge_method(register=False)
def probe(a: Parameter(StateDict[Tensor]), **kwargs) -> Return(Tensor):
    try:
        got("value", a[asked()])
    except Exception as e:
        got("error", e)
    return done()

@merge_method(register=False)
def probe_kw(*, a: Parameter(StateDict[Tensor]), **kwargs) -> Return(Tensor):
    try:
        got("value", a[asked()])
    except Exception as e:
        got("error", e)
    return done()

@merge_method(register=False)
def probe_rest(*rest: Parameter(StateDict[Tensor]), **kwargs) -> Return(Tensor):
    try:
        got("value", rest[-1][asked()])
    except Exception as e:
        got("error", e)
    return done()
'''
STORES = ("file", "dict", "numbers", "recipes")
VIA = ("read by the merge", "state dict argument", "state dict keyword", "state dict of a merge", "variadic state dict", "argument of a merge")
OPTS = dict(merge_dtype=None, merge_device=None, output_dtype=None, output_device=None, threads=0, check_finite=False)


def check(rep, tier):
    w = shared()
    box = {}
    mod = w.prog.source("probes", "def got(*a): pass\ndef asked(): pass\ndef done(): pass\n" + SOURCE)
    mod.__dict__["got"] = lambda k, v: box.setdefault("seen", []).append((k, v))
    mod.__dict__["asked"] = lambda: box["ask"]
    mod.__dict__["done"] = lambda: w.tensor("done")
    w.act = lambda name, key, *a: a[0]

    def scenario(store, via, aliases, optional, present, ask):
        names = ("k", *aliases)
        order = {n: i for i, n in enumerate(names)}
        want = None
        for n in ((ask, *aliases) if ask == "k" else (ask,)):
            if n in present:
                want = n
                break

        def entry():
            w.fresh()
            w.io.orders = False
            box.clear()
            box["ask"] = ask
            cfg = w.config({"k": (aliases, optional), "z": ((), False)})
            if store == "file":
                w.file("A.safetensors", tuple(present) + ("z",))
                node = w.node("A.safetensors", cfg)
            elif store == "recipes":
                w.file("A.safetensors", ("k", "z"))
                inner = {}
                for n in (*present, "z"):
                    inner[n] = w.call(w.literal, {x: w.tensor(f"{n}") for x in ("k", "z", *aliases)}, cfg)
                node = w.call(w.literal, inner, cfg)
            else:
                v = (lambda n: 0.5 + order.get(n, 7)) if store == "numbers" else (lambda n: w.tensor(n))
                node = w.call(w.literal, {n: v(n) for n in (*present, "z")}, cfg)
            w.file("D.safetensors", ("k", "z"))
            driver = w.node("D.safetensors", w.config({"k": ((), False)}))
            m = w.call
            top = {
                "read by the merge": lambda: node,
                "argument of a merge": lambda: m(w.m.two, m(w.m.one, node), node),
                "state dict argument": lambda: m(mod.probe, node),
                "state dict keyword": lambda: w.prog.call(mod.probe_kw, (), {"a": node}),
                "variadic state dict": lambda: m(mod.probe_rest, node, node),
                "state dict of a merge": lambda: m(mod.probe, m(w.m.one, node)),
            }[via]()
            out = w.run(top, strict_weight_space=False, **OPTS)
            return dict(out), list(box.get("seen", ()))

        res = []
        where = f"{store} with {{{', '.join(present)}}}, aliases ({', '.join(aliases)}), {via}"

        def is_(v, n):
            if store == "file":
                return content(v) == content_of(n)
            if store == "numbers":
                return (v == 0.5 + order[n] if not isinstance(v, ATensor) else content(v) is not None and (0.5 + order[n]) in flat(content(v)))
            return content(v) == ("tensor", n)

        def content_of(n):
            names_ = tuple(present) + ("z",)
            i = names_.index(n)
            return ("file", "/models/A.safetensors", 8 * i)
        for p in w.prog.explore(entry):
            if p.kind == "raise":
                if want is None and via in ("read by the merge", "argument of a merge") and False:
                    continue
                res.append(("named" if want is None else "value", False, f"{where}: merging fails with {p.value!r}"))
                continue
            if p.kind != "return":
                continue
            out, seen = p.value
            if via in ("read by the merge", "argument of a merge"):
                keys = {"z"} | ({"k"} if want else set())
                res.append(("output", set(out) == keys, f"{where}: the output has the keys {sorted(out)} instead of {sorted(keys)}"))
                if want and "k" in out:
                    res.append(("value", is_(out["k"], want), f"{where}: the key is {brief(out['k'])} instead of what is stored under '{want}'"))
                continue
            if not seen:
                res.append(("value", False, f"{where}: the merge function is never called"))
            for k, v in seen:
                if want:
                    res.append(("value", k == "value" and is_(v, want), f"{where}: reading '{ask}' gives {brief(v)} instead of what is stored under '{want}'"))
                else:
                    res.append(("named", k == "error" and isinstance(v, w.missing) and v.args == (ask,), f"{where}: reading '{ask}' gives {brief(v)} instead of a missing-key error naming it"))
        return res

    jobs = []
    for store, via in itertools.product(STORES, VIA):
        for aliases in ((), ("a1",), ("a1", "a2")):
            for optional in (False, True):
                for n in range(len(aliases) + 2):
                    for present in itertools.permutations(("k", *aliases), n):
                        asks = ["k"]
                        if via.startswith("state") or via.startswith("variadic"):
                            asks += [*aliases[:1], "unknown", "__metadata__"]
                        for ask in asks:
                            if optional and (ask != "k" or tier == "quick" and store != "file"):
                                continue
                            if store == "recipes" and ask not in ("k", "unknown"):
                                continue
                            jobs.append((store, via, aliases, optional, present, ask))
    chunks = [jobs[i::8] for i in range(8)]
    n = 0
    for res in parallel([lambda c=c: [(j, r) for j in c for r in scenario(*j)] for c in chunks]):
        for j, (rule, ok, msg) in res:
            n += 1
            rep.obligation(rule, sample=repr(j))
            if not ok:
                rep.violation(rule, f"lookup in {j[0]}", "sd_mecha/merging.py", msg)
    rep.floor("scenarios", len(jobs), 300)
    rep.floor("lookups", n, 300)


def flat(v):
    if isinstance(v, tuple):
        for x in v:
            yield from flat(x)
    else:
        yield v


def brief(v):
    return repr(content(v)) if isinstance(v, ATensor) else repr(v)
