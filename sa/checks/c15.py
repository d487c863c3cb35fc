import itertools
from ..recipelib import *

LEVEL = "other"
RULES = {
    "graph": "reading back a serialized recipe yields the same methods, arguments at the same positions and names, models with their paths, configs and spaces, and dictionaries",
    "root": "the last line of the text is the root of the recipe",
    "methods": "every registered merge method is found again under the name written for it",
    "pure": "serializing does not change the recipe",
}
EXPLANATION = ("Abstract interpretation of writing and reading over recipe graphs: every node kind as root and as positional, keyword, variadic argument and dictionary value, of every other kind, "
               "to depth two exhaustively (thorough: three), shared sub-graphs, look-alike nodes differing in one attribute or in the type of one value, and graphs of many instructions; "
               "every registered merge method is resolved by the name it is written under. The graphs are compared by an independent walk over public attributes.")
ASSUMPTIONS = ["instructions are written per node kind, so that graphs of depth two over every pair of kinds and positions represent deeper ones"]
FILE = "sd_mecha/serialization.py"


def check(rep, tier):
    r = Recipes()
    c, m = r.call, r.m
    cfgs = [r.attr(x, "identifier") for x in r.call(r.attr(r.mc, "get_all"))]
    cfgs = sorted(cfgs)[:2]
    rep.floor("registered configs", len(cfgs), 2)

    def lit(v, cfg=None, space=None):
        return c(r.literal, v, cfg, space)

    def mod(p, **k):
        return c(r.model, APath(p), **k)

    # ---- leaves: models and literals differing in one attribute
    leaves = {
        "model": lambda: mod("a.safetensors"),
        "model b": lambda: mod("b.safetensors"),
        "model in a folder": lambda: mod("/x/a.safetensors"),
        "model with config": lambda: mod("a.safetensors", config=cfgs[0]),
        "model with other config": lambda: mod("a.safetensors", config=cfgs[1]),
        "model in delta space": lambda: mod("a.safetensors", merge_space="delta"),
        "model with config in delta space": lambda: mod("a.safetensors", config=cfgs[0], merge_space="delta"),
        "text": lambda: "text",
        "text that looks like a reference": lambda: "&0",
        "int": lambda: 1,
        "float": lambda: 1.0,
        "bool": lambda: True,
        "literal in weight space": lambda: lit(1.0, None, "weight"),
        "literal with config": lambda: lit(1.0, cfgs[0], "weight"),
        "int literal in weight space": lambda: lit(1, None, "weight"),
        "dict": lambda: {"k": 1, "l": 2},
        "dict in other order": lambda: {"l": 2, "k": 1},
        "dict of floats": lambda: {"k": 1.0, "l": 2.0},
        "dict with config": lambda: lit({"k": 1, "l": 2}, cfgs[0], "weight"),
        "empty dict": lambda: lit({}),
        "dict of recipes": lambda: lit({"k": mod("a.safetensors", config=cfgs[0]), "l": mod("b.safetensors", config=cfgs[0])}),
        "dict of literal nodes": lambda: lit({"k": lit(1.0), "l": lit(2.0)}),
    }
    def alike(x, y):
        """the values of a dictionary are all recipes or all values of one type"""
        u, v = r.bare(x), r.bare(y)
        if isinstance(u, dict):
            return {"one": 1.5, "two": 2.5}
        if isinstance(u, r.Node) and isinstance(v, r.Node) or type(u) is type(v) and not isinstance(u, dict):
            return {"one": x, "two": y}
        return {"one": x, "two": x}

    # ---- composites over one or two children
    comps = {
        "root itself": lambda x, y: x if isinstance(x, r.Node) else lit(x),
        "first argument": lambda x, y: c(m.t_def, x),
        "both arguments": lambda x, y: c(m.t_two, x, y),
        "arguments by name": lambda x, y: c(m.t_two, b=x, a=y),
        "variadic arguments": lambda x, y: c(m.t_many, x, y, x),
        "keyword arguments": lambda x, y: c(m.t_kw, x, b=y, c=x),
        "keyword argument, default left": lambda x, y: c(m.t_kd, x, c=y),
        "dictionary values": lambda x, y: lit(alike(x, y)),
        "nested dictionary": lambda x, y: lit({"one": {"x": x}, "two": {"y": y, "x": x}}),
        "dictionary as argument": lambda x, y: c(m.t_two, alike(x, y), x),
        "argument of defaults only": lambda x, y: c(m.t_two, c(m.t_opt), c(m.t_opt, "y", c=False)),
    }

    def graph(build):
        def entry():
            try:
                node = build()
            except ControlFlow:
                raise
            except Exception as e:
                return ("rejected", repr(e))
            if not isinstance(node, r.Node):
                return ("rejected", "not a recipe")
            before = shape(node)
            try:
                texts = list(r.round_trips(node))[:1]
            except ControlFlow:
                raise
            except Exception as e:
                return ("graph", f"serialize raises {type(e).__name__}: {e}")
            for name, text, src in texts:
                try:
                    back = c(r.deserialize, src)
                except ControlFlow:
                    raise
                except Exception as e:
                    return ("graph", f"reading back raises {type(e).__name__}: {e}")
                d = r.diff(node, back)
                if d:
                    return ("root" if type(back) is not type(node) or d.startswith("recipe: ") else "graph", d)
            if shape(node) != before:
                return ("pure", "serializing changed the recipe")
            return None
        v, e = r.once(entry)
        return v if e is None else ("graph", f"{type(e).__name__}: {e}")

    def shape(n):
        if isinstance(n, r.Merge):
            return (id(n), tuple(shape(x) for x in n.args), tuple((k, shape(x)) for k, x in n.kwargs.items()))
        if isinstance(n, r.Literal):
            return (id(n), shape(n.value), id(n.model_config))
        if isinstance(n, dict):
            return tuple((k, shape(v)) for k, v in n.items())
        if isinstance(n, r.Node):
            return (id(n), str(n.path), id(n.model_config))
        return repr(n)

    def depth1():
        for cn, f in comps.items():
            for i, a in enumerate(leaves):
                for j, b in enumerate(leaves):
                    if tier == "quick" and (i + j) % 2 and cn in ("nested dictionary", "dictionary as argument", "keyword argument, default left", "root itself"):
                        continue
                    yield f"{cn} of ({a}, {b})", lambda f=f, a=a, b=b: f(leaves[a](), leaves[b]())
    kinds = ["model", "model with config", "text", "float", "literal in weight space", "dict", "dict of recipes"]
    short = kinds if tier != "quick" else ["model with config", "float", "dict of recipes"]

    def depth2():
        for c2, f2 in comps.items():
            for c1, f1 in comps.items():
                if c1 == "nested dictionary" and c2 != "root itself":
                    continue                # not accepted as an argument
                for a in short:
                    for b in short:
                        for other in (("leaf", "same", "swap") if tier != "quick" else ("leaf",) if a != b else ("same",)):
                            def build(f1=f1, f2=f2, a=a, b=b, other=other):
                                x = f1(leaves[a](), leaves[b]())
                                y = {"leaf": leaves[b], "same": lambda: x, "swap": lambda: f1(leaves[b](), leaves[a]())}[other]()
                                return f2(x, y)
                            yield f"{c2} of {c1} of ({a}, {b}), {other}", build

    def depth3():
        for fs in itertools.product([k for k in comps if k != "nested dictionary"], repeat=3):
            for a in (kinds if tier != "quick" else ()):
                def build(fs=fs, a=a):
                    x = leaves[a]()
                    for k in fs:
                        x = comps[k](x, leaves["model with config"]())
                    return x
                yield f"{' of '.join(fs[::-1])} of {a}", build

    def special():
        def shared():
            a = mod("a.safetensors")
            d = c(m.t_delta, a, mod("b.safetensors"))
            return c(m.t_many, c(m.t_many, a, a), c(m.t_many, a, a))

        def long(n):
            def build():
                x = mod("m0.safetensors")
                nodes = [x]
                for i in range(n):
                    x = c(m.t_two, x, mod(f"m{i + 1}.safetensors"))
                    nodes.append(x)
                return c(m.t_many, *nodes, *reversed(nodes))
            return build

        def wide():
            a = [mod(f"m{i}.safetensors") for i in range(130)]
            return c(m.t_many, c(m.t_many, *a), c(m.t_two, *a[105:107]), *a[:12])

        def wide():
            a = [mod(f"m{i}.safetensors") for i in range(130)]
            return c(m.t_many, c(m.t_many, *a), c(m.t_two, *a[105:107]), *a[:12])

        def delta():
            return c(m.t_delta, mod("a.safetensors", config=cfgs[0]), mod("b.safetensors", config=cfgs[0]), alpha=0.5)

        def ops():
            a, b, k = (mod(f"{n}.safetensors", config=cfgs[0]) for n in "abc")
            p = r.prog
            return p.call(p.getattr(a, "__add__"), (p.call(p.getattr(b, "__sub__"), (k,), {}),), {})

        def conf(kind):
            def build():
                cfg = c(r.attr(r.mc, "StructuralModelConfig"), {})
                return c(m.t_def, mod("a.safetensors", config=cfg)) if kind == "structural" else mod("a.safetensors", config=r.attr(r.mc, "INFER"))
            return build
        yield "shared sub-graph", shared
        yield "graph of 3 steps", long(3)
        yield "graph of 14 steps", long(14)
        yield "graph of 133 steps", wide
        yield "delta with option", delta
        yield "operators", ops
        yield "model whose config is to be inferred", conf("infer")

    jobs = list(depth1()) + list(depth2()) + list(depth3()) + list(special())
    must = {n for n, _ in special()}
    rep.floor("graphs", len(jobs), 3000)

    def run(part):
        out, n, rej = [], 0, 0
        for name, build in part:
            v = graph(build)
            n += 1
            if v is not None and v[0] == "rejected":
                if name in must:
                    raise Broken(f"{name} cannot be built: {v[1]}")
                rej += 1
            elif v is not None:
                out.append((name, *v))
        return n, rej, out

    def methods():
        out = []
        ms = c(r.attr(r.mm, "get_all"))
        for f in ms:
            name = c(r.attr(f, "get_identifier"))
            v, e = r.once(lambda: c(r.attr(r.mm, "resolve"), name))
            if v is not f:
                out.append((f"registered method {name}", "methods", f"resolves to {v!r}" if e is None else f"{e!r}"))
        return len(ms), 0, out

    n = rej = nm = 0
    results = parallel([lambda i=i: run(jobs[i::12]) for i in range(12)] + [methods])
    for k, (a, b, out) in enumerate(results):
        if k < 12:
            n, rej = n + a, rej + b
        else:
            nm = a
        for name, rule, msg in out:
            where = name.split(" of (")[0].split(" of ")[0]
            rep.violation(rule, where, FILE, f"{name}: {msg}")
    for rule in ("graph", "root", "pure"):
        rep.obligation(rule, n - rej, sample=f"{n - rej} graphs, {rej} combinations rejected at construction")
    rep.obligation("methods", nm, sample="registered merge methods")
    rep.floor("graphs that can be built", n - rej, 1500)
    rep.floor("registered merge methods", nm, 40)
    rep.unit(*sorted(f for f in r.prog.functions_seen if "seriali" in f), "sd_mecha.serialization")
