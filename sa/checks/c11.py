import itertools
from ..mergelib import *

LEVEL = "other"
RULES = {
    "load": "merging opens every model file of the recipe and nothing else",
    "close": "merging closes every model file it opened",
    "evaluate": "the value of a key uses every input that the recipe names for that key",
    "cast": "every model tensor reaches merge functions in the merge dtype",
    "serialize": "the serialized recipe names every model of the recipe",
    "count": "counting the models of a recipe counts each one",
    "contains": "a recipe contains exactly the nodes that are in it",
    "rejected": "a recipe naming a missing file is rejected, wherever it is named",
}
EXPLANATION = ("Abstract interpretation of load, close, cast, count, membership, serialize and evaluate over a model placed in every composition of up to three "
               "contexts: first/second positional argument, variadic argument, keyword argument, first/second value of a dictionary of recipes, state dict argument, fallback. "
               "The node kinds are the induction step of the recursion over recipes.")
ASSUMPTIONS = ["visitors recurse over children without regard to their position in the whole graph beyond three levels"]
KEYS = ("k1", "k2")
CONTEXTS = ("first argument", "second argument", "variadic argument", "keyword argument", "first dictionary value", "second dictionary value",
            "state dict argument", "fallback")


def put(w, cfg, ctx, inner, fresh):
    m, c = w.m, w.call
    return {
        "first argument": lambda: c(m.two, inner, fresh()),
        "second argument": lambda: c(m.two, fresh(), inner),
        "variadic argument": lambda: c(m.many, fresh(), fresh(), inner),
        "keyword argument": lambda: c(m.kw, fresh(), b=inner),
        "first dictionary value": lambda: c(w.literal, {"k1": inner, "k2": fresh()}, cfg),
        "second dictionary value": lambda: c(w.literal, {"k1": fresh(), "k2": inner}, cfg),
        "state dict argument": lambda: c(m.sd, inner, fresh()),
        "fallback": lambda: w.either(fresh(), inner),
    }[ctx]()


def uses(ctxs):
    """keys for which the probe is part of the value"""
    ks = set(KEYS)
    for c in ctxs:
        if c == "first dictionary value":
            ks &= {"k1"}
        if c == "second dictionary value":
            ks &= {"k2"}
        if c == "fallback":
            ks = set()
    return ks


def mentions(v, path):
    if isinstance(v, tuple):
        return v[:2] == ("file", path) or any(mentions(x, path) for x in v)
    return False


def check(rep, tier):
    def one(ctxs):
        w = shared()
        w.io.index_exact = True
        serialize = anchor(w.prog, "sd_mecha.serialize")
        counter = anchor(w.prog, "sd_mecha.recipe_nodes.ModelsCountVisitor")
        seen = []

        def act(name, key, *a):
            seen.extend((x.dtype.name, x) for x in a if isinstance(x, ATensor))
            return ATensor(f"{name}_{key}", 2, a[0].dtype, models.Size((2,)), True, True, (name, key) + tuple(content(x) for x in a))
        w.act = act
        where = ", in ".join(ctxs)
        out = []

        def expect(rule, ok, msg):
            out.append((rule, ctxs[0], bool(ok), f"{msg} (model as {where})"))

        def entry(gone=False):
            seen.clear()
            w.fresh()
            w.io.orders = False
            cfg = w.config({k: ((), False) for k in KEYS})
            files, nodes = [], []

            def fresh():
                n = f"Q{len(files)}.safetensors"
                files.append(w.file(n, KEYS))
                nodes.append(w.node(n, cfg))
                return nodes[-1]
            probe = w.node("P.safetensors", cfg)
            if not gone:
                files.append(w.file("P.safetensors", KEYS))
            nodes.append(probe)
            r = probe
            for c in ctxs:
                r = put(w, cfg, c, r, fresh)
            outside = w.node("R.safetensors", cfg)
            if gone:
                w.run(r)
                return None
            n = w.call(w.prog.getattr(r, "accept"), w.call(counter))
            expect("count", n == len(nodes), f"{n} models counted instead of {len(nodes)}")
            inside = [w.prog.truth(w.prog.call(w.prog.getattr(r, "__contains__"), (x,), {})) for x in nodes]
            expect("contains", all(inside) and not w.prog.truth(w.prog.call(w.prog.getattr(r, "__contains__"), (outside,), {})), f"membership of the models is {inside}")
            text = w.call(serialize, r)
            missing = [f for f in files if f.split("/")[-1] not in text]
            expect("serialize", not missing, f"the serialized recipe does not name {missing}")
            res = w.run(r, merge_dtype=models.DTYPES["bfloat16"], output_dtype=None, output_device=None)
            opened = [f.path for f in w.io.fs.opened]
            expect("load", set(opened) == set(files), f"files opened: {sorted(set(opened))}, in the recipe: {sorted(files)}")
            expect("close", not w.open_files(), f"files left open: {w.open_files()}")
            for k in uses(ctxs):
                expect("evaluate", k in res and mentions(content(res[k]), "/models/P.safetensors"), f"the value of {k} does not use it: {content(res[k]) if k in res else 'missing'}")
            expect("evaluate", set(res) == set(KEYS), f"keys of the result: {sorted(res)}")
            dts = {d for d, x in seen}
            expect("cast", dts <= {"bfloat16"}, f"merge functions see dtypes {sorted(dts)}")
            return None
        for p in Sweep(w.prog, entry):
            if p.kind == "raise":
                out.append(("evaluate", ctxs[0], False, f"{p.value!r} is raised (model as {where})"))
        for p in Sweep(w.prog, lambda: entry(True)):
            expect("rejected", p.kind == "raise", "merge accepts a missing file")
        return out

    shared()
    cases = [c for n in (1, 2, 3) for c in itertools.product(CONTEXTS, repeat=n) if n < 3 or tier == "thorough" or c[0] in ("keyword argument", "second dictionary value", "second argument")]
    chunks = [cases[i::8] for i in range(8)]
    n = 0
    for res in parallel([lambda c=c: [r for x in c for r in one(x)] for c in chunks]):
        for rule, construct, ok, msg in res:
            n += 1
            rep.obligation(rule, sample=construct)
            if not ok:
                rep.violation(rule, f"model as {construct}", "sd_mecha/recipe_nodes.py" if rule in ("count", "contains") else "sd_mecha/serialization.py" if rule == "serialize" else "sd_mecha/merging.py", msg)
    rep.floor("contexts", len(cases), 72)
    rep.floor("obligations", n, 500)
