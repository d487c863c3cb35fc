import itertools
from ..mergelib import *

LEVEL = "other"
RULES = {
    "registries": "after merging, the registered model configs, formats, merge spaces, merge methods and converters are what they were",
    "configs": "after merging, keys, aliases, shapes and components of a model config are what they were",
    "arguments": "after merging, the dictionaries, tensors, lists and recipe nodes given by the caller are what they were",
    "repeat": "repeating a merge gives the same keys and values, whatever was merged in between",
    "mutation": "no tensor given by the caller or read from a model is written to",
}
EXPLANATION = ("Effect analysis by abstract interpretation of sequences of merges with different options in one process over recipes of every node kind: "
               "the observable state of all registries and of a registered config, and every object given by the caller, is compared before and after; "
               "in-place tensor operations are recorded by the tensor model.")
ASSUMPTIONS = ["state that no public function of the registries shows has no effect on later merges other than through the repeated merges compared here"]
KEYS = ("k1", "k2")
ALL = (*KEYS, "e1", "e2")


def check(rep, tier):
    def sequence(shape, seq):
        w = World()
        w.io.index_exact = True
        p = w.prog
        mc, mf, ms, mm = (p.load(f"sd_mecha.extensions.{n}") for n in ("model_configs", "model_formats", "merge_spaces", "merge_methods"))
        out = []

        def act(name, key, *a):
            if name == "inner" and key == "k2" and shape == "missing":
                raise w.missing(key)
            return ATensor(f"{name}_{key}", 2, a[0].dtype, models.Size((2,)), True, True, (name, key) + tuple(content(x) if isinstance(x, ATensor) else x for x in a))
        w.act = act

        def view(cfg):
            g = lambda n: w.call(p.getattr(cfg, n))
            md = lambda v: (tuple(v.shape) if v.shape is not None else None, getattr(v.dtype, "name", v.dtype))
            keys = lambda d: tuple((k, md(p.getattr(v, "shape") is not None and v or v), tuple(p.getattr(v, "aliases")), p.getattr(v, "optional")) for k, v in d.items())
            return (p.getattr(cfg, "identifier"), keys(g("keys")), tuple((k, md(v)) for k, v in g("metadata").items()),
                    tuple((k, tuple(v)) for k, v in g("aliases").items()),
                    tuple((n, keys(w.call(p.getattr(c, "keys")))) for n, c in g("components").items()))

        def registries():
            ids = lambda l: tuple(sorted((str(p.getattr(x, "identifier")), id(x)) for x in l))
            return dict(configs=ids(w.call(mc.get_all)), base=ids(w.call(mc.get_all_base)), aux=ids(w.call(mc.get_all_aux)), formats=ids(w.call(mf.get_all)),
                        spaces=ids(w.call(ms.get_all)), methods=ids(w.call(mm.get_all)), converters=ids(w.call(mm.get_all_converters)))

        def freeze(x, depth=0):
            """caller's object, by content and by identity of what it holds"""
            if isinstance(x, dict):
                return (id(x), tuple((k, freeze(v)) for k, v in x.items()))
            if isinstance(x, (list, tuple)):
                return (id(x), tuple(freeze(v) for v in x))
            if isinstance(x, ATensor):
                return (id(x), x.snapshot(), x.dtype.name, tuple(x.shape), x.is_cpu)
            return id(x)

        def graph(n):
            """structure of a recipe"""
            if isinstance(n, (ATensor, str, int, float, bool, dict, type(None))) or not hasattr(n, "accept"):
                return freeze(n)
            d = {}
            for a in ("value", "path", "args", "kwargs", "merge_method"):
                if hasattr(n, a):
                    v = getattr(n, a)
                    d[a] = (tuple(graph(x) for x in v) if isinstance(v, tuple) else (freeze(v), tuple((k, graph(x)) for k, x in v.items())) if isinstance(v, dict)
                            else str(v) if a == "path" else freeze(v))
            return (id(n), str(p.getattr(p.getattr(n, "merge_space"), "identifier")), tuple(sorted(d.items(), key=lambda kv: kv[0])))

        def entry():
            out.clear()
            w.fresh()
            io = w.io
            io.orders = False
            for f in "AB":
                w.file(f"{f}.safetensors", ("k1", "old_k2", "e1", "extra") if f == "B" else (*ALL, "extra"))
            cfg = w.config(None, identifier=f"reg-n{p.uid()}", components={"main": {"k1": ((), False), "k2": (("old_k2",), False)}, "ema": {"e1": ((), True), "e2": ((), True)}})
            w.call(mc.register_aux, cfg)
            A, B = w.node("A.safetensors", cfg), w.node("B.safetensors", cfg)
            t = {k: w.tensor(f"t_{k}") for k in ALL + ("extra2",)}
            lit = w.call(w.literal, t, cfg, "weight")
            nodes = {"k1": A, "k2": w.call(w.m.one, A), "e1": A, "e2": A}
            m, c = w.m, w.call
            recipe = {
                "method": lambda: c(m.two, A, B),
                "keyword": lambda: c(m.kw, c(m.inner, A), b=B),
                "in-memory": lambda: c(m.many, lit, A, lit),
                "only in-memory": lambda: lit,
                "dict of recipes": lambda: c(m.two, c(w.literal, nodes, cfg), lit),
                "state dict": lambda: c(m.sd, lit, B),
                "missing": lambda: w.either(c(m.inner, A), lit),
                "cached": lambda: p.call(p.getattr(c(m.two, A, B), "set_cache"), (), {}),
            }[shape]()
            fb = {k: w.tensor(f"f_{k}") for k in ALL}
            dirs = [APath("/models"), APath("/other")]
            given = OutMapping()
            given.d["before"] = w.tensor("before")
            config0, reg0 = view(cfg), registries()
            tensors = {id(x) for x in [*t.values(), *fb.values(), given.d["before"]]}
            snap = lambda: dict(recipe=graph(recipe), literal=graph(lit), tensors=freeze(t), nodes=freeze(nodes), fallback=freeze(fb), dirs=freeze(dirs), before=freeze(given.d["before"]))
            s0 = snap()
            results = {}
            for i, o in enumerate(seq):
                o2 = dict(o)
                if o2.pop("fallback", False):
                    o2["fallback_model"] = c(w.literal, fb, cfg, "weight")
                if o2.pop("given", False):
                    o2["output"] = given
                label = ", ".join(f"{k}={v}" for k, v in o.items()) or "no options"
                try:
                    r = w.run(recipe, model_dirs=dirs, check_finite=False, **o2)
                except ControlFlow:
                    raise
                except BaseException as e:
                    out.append(("repeat", "merge", f"merge raises {e!r} ({label}, merge number {i + 1})"))
                    break
                res = {k: content(v) for k, v in r.items() if k != "before"} if r is not None else {}
                old = results.setdefault(label, res)
                if {k: strip(v) for k, v in old.items()} != {k: strip(v) for k, v in res.items()}:
                    out.append(("repeat", "merge", f"merge number {i + 1} gives {sorted(res)}, the same merge gave {sorted(old)} before ({label})"))
                if "output" in o2 and given.d.get("before") is None:
                    out.append(("arguments", "output mapping", f"an entry of the output mapping that is no key of the recipe is gone ({label})"))
                reg1, s1 = registries(), snap()
                for k in reg0:
                    if reg0[k] != reg1[k]:
                        out.append(("registries", k, f"the registered {k} changed ({label})"))
                if view(cfg) != config0:
                    a, b = config0, view(cfg)
                    what = next(n for n, x, y in zip(("identifier", "keys", "metadata", "aliases", "components"), a, b) if x != y)
                    out.append(("configs", "merge", f"the {what} of the model config changed ({label})"))
                for k in s0:
                    if s0[k] != s1[k]:
                        out.append(("arguments", k, f"the caller's {k} changed ({label})"))
            return tensors
        res = []
        for path in Sweep(p, entry):
            if path.kind == "cut":
                continue
            if path.kind == "raise":
                raise path.value
            probs = list(out)
            for e in path.events:
                if e.kind == "tensor_mutated":
                    probs.append(("mutation", str(e.obj.name), f"tensor {e.obj.name} is written to by {e.method}"))
            res.append(probs)
        return [(shape, seq, probs) for probs in res]

    def strip(v):
        return v

    plain, keep, ema, both, given, fb, mand = ({}, {"omit_extra_keys": False}, {"omit_ema": False}, {"omit_extra_keys": False, "omit_ema": True}, {"given": True},
                                                {"fallback": True}, {"check_mandatory_keys": True})
    seqs = [(plain, plain, ema, plain, keep, both, keep, ema, plain), (keep, keep, plain), (both, ema, both, keep, plain), (given, plain, given), (fb, keep, fb, plain), (mand, plain, mand),
            (ema, plain, ema), ({"threads": 0}, both, {"threads": 0})]
    shapes = ("method", "keyword", "in-memory", "only in-memory", "dict of recipes", "state dict", "missing", "cached")
    tasks = [lambda s=s, q=q: sequence(s, q) for s in shapes for q in seqs]
    n = 0
    for res in parallel(tasks):
        for shape, seq, probs in res:
            n += 1
            for r in RULES:
                rep.obligation(r, sample=f"recipe '{shape}', {len(seq)} merges")
            for rule, what, msg in probs:
                rep.violation(rule, f"{what}", "sd_mecha/merging.py", f"{msg}; recipe '{shape}'")
    rep.floor("sequences", n, len(tasks))
