from ..mergelib import *

LEVEL = "other"
RULES = {
    "effect": "each option of merge has its documented effect, given, omitted or None",
    "defaults": "an option of a Defaults object acts like the same option of merge, and an option of the call overrides it",
    "output": "the result goes to the given path or mapping and the call returns what is documented",
    "fallback": "the fallback supplies exactly the keys the recipe is missing",
}
EXPLANATION = ("Value flow of every option by abstract interpretation of merge and Defaults: what the options control (dtype and device of the tensors seen by merge "
               "functions and of the results, keys of the output, files opened and read sizes, workers, progress bar, warnings, rejections) is compared with the "
               "documentation, and between merge(option), Defaults(option).merge() and Defaults(another value).merge(option).")
ASSUMPTIONS = ["Tensor.to converts to the given device and dtype", "files, executors and progress bars behave like their models"]
KEYS = ("k1", "k2")


class Bar(ATqdm):
    pass


def check(rep, tier):
    DT = models.DTYPES
    cpu32 = ("float32", "cpu")

    def build(w, io, shape, cfg):
        A, B = w.node("A.safetensors", cfg), w.node("B.safetensors", cfg)
        m, c = w.m, w.call
        keys = (*KEYS, "e1")
        td = lambda n: c(w.literal, {k: w.tensor(f"{n}_{k}") for k in keys}, cfg, "weight")
        return {
            "model": lambda: c(m.one, A),
            "positional": lambda: c(m.two, A, c(m.inner, B)),
            "keyword": lambda: c(m.kw, A, b=B),
            "variadic": lambda: c(m.many, A, B, c(m.one, A)),
            "in-memory dict": lambda: c(m.two, A, td("t")),
            "dict of recipes": lambda: c(m.two, A, c(w.literal, {k: (A, c(m.one, B), B)[i] for i, k in enumerate(keys)}, cfg)),
            "state dict": lambda: c(m.sd, A, B),
            "tensor": lambda: c(m.two, A, c(w.literal, w.tensor("t"), None, "weight")),
            "number": lambda: c(m.two, A, c(w.literal, 2.5, None, "weight")),
            "whole number": lambda: c(m.two, A, c(w.literal, 2, None, "weight")),
            "delta": lambda: c(m.delta, A),
            "lone model": lambda: A,
            "absolute": lambda: c(m.one, w.node("/models/A.safetensors", cfg)),
        }[shape]()

    def observe(opts, how="direct", shape="positional", other=None, prepare=None, finite=True, result=lambda w, r: None, many=False):
        """what can be observed of a merge with these options"""
        w = shared()
        w.io.index_exact = True
        io = w.io
        seen = []

        def act(name, key, *a):
            seen.extend((t.dtype.name, str(t.device)) for t in a if isinstance(t, ATensor))
            if not all(isinstance(t, ATensor) for t in a):
                raise EngineError(f"{name} received {a}")
            if prepare and prepare(key) == "missing":
                raise w.missing(key)
            return ATensor(f"{name}_{key}", 2, a[0].dtype, models.Size((2,)), True, a[0].is_cpu, (name, key), dev=a[0].dev, finite=finite)
        w.act = act

        def entry():
            seen.clear()
            w.fresh()
            io.orders = False
            for d in ("models", "other"):
                for f in "AB":
                    w.file(f"/{d}/{f}.safetensors", (*KEYS, "e1", "extra"))
                w.file(f"/{d}/D.safetensors", ("k1", "e1"))
            cfg = w.config(None, components={"main": {k: ((), False) for k in KEYS}, "ema": {"e1": ((), False)}})
            recipe = build(w, io, shape, cfg) if shape != "incomplete" else w.node("D.safetensors", cfg)
            o = {k: v(w, cfg) if callable(v) and not isinstance(v, type) else v for k, v in opts.items()}
            oo = {k: v for k, v in (other or {}).items()}
            call_only = {k: o[k] for k in ("fallback_model", "output") if k in o}
            o = {k: v for k, v in o.items() if k not in call_only}
            mv = dict(model_dirs=[APath("/models")])
            try:
                if how == "direct":
                    r = w.prog.call(w.merge, (recipe,), {**mv, **o, **call_only})
                elif how == "defaults":
                    d = w.prog.call(w.defaults, (), {**mv, **o})
                    r = w.prog.call(w.prog.getattr(d, "merge"), (recipe,), call_only)
                else:
                    d = w.prog.call(w.defaults, (), {**mv, **oo})
                    r = w.prog.call(w.prog.getattr(d, "merge"), (recipe,), {**o, **call_only})
                e = None
            except ControlFlow:
                raise
            except BaseException as x:
                e, r = type(x).__name__, None
            w.drain()
            return dict(error=e, inputs=sorted(set(seen)), results={k: (t.dtype.name, str(t.device)) for k, t in r.items()} if isinstance(r, (dict, OutMapping)) else None,
                        values={k: content(t) for k, t in r.items()} if isinstance(r, (dict, OutMapping)) else None,
                        workers=[x.max_workers for x in io.executors], reads=list(io.fs.reads), opened=[f.path for f in io.fs.opened],
                        bars=[type(b).__name__ for b in io.bars], logs=list(io.logs), files=sorted(p for p in io.fs.files if not p.startswith(("/models/A", "/models/B", "/models/D", "/other/A", "/other/B", "/other/D"))),
                        returned=type(r).__name__, extra=result(w, r))
        out = [p for p in Sweep(w.prog, entry) if p.kind != "cut"]
        if many:
            return [p.value for p in out]
        if len(out) != 1 or out[0].kind == "raise":
            raise Broken(f"merge with options {opts} has {len(out)} traces ({out[0].value!r})")
        return out[0].value

    bad = []

    def expect(rule, construct, ok, msg, file="sd_mecha/merging.py"):
        results.append((rule, construct, bool(ok), msg, file))

    results = []
    tasks = []

    # ---- dtype and device, for every kind of input
    shapes = ("model", "positional", "keyword", "variadic", "in-memory dict", "dict of recipes", "state dict", "tensor", "number", "whole number")

    def casts(shape):
        pairs = [({}, {})] + [({a: v}, {}) for a, v in (("merge_dtype", DT["bfloat16"]), ("merge_dtype", None), ("merge_device", "cuda"), ("merge_device", None),
                                                          ("output_dtype", DT["float32"]), ("output_dtype", None), ("output_device", "cuda:1"), ("output_device", None))]
        pairs += [({"merge_dtype": None, "merge_device": None}, {}), ({"output_dtype": None, "output_device": None}, {}), ({"merge_dtype": DT["float16"], "merge_device": "cuda"}, {}),
                  ({"output_dtype": DT["bfloat16"], "output_device": "cuda"}, {}), ({"merge_dtype": None, "merge_device": None, "output_dtype": None, "output_device": None}, {}),
                  ({"merge_device": "cuda", "output_device": "cpu"}, {}), ({"merge_dtype": DT["float64"], "output_dtype": DT["float8_e4m3fn"]}, {})]
        for opts, _ in pairs:
            o = observe(opts, shape=shape)
            name = ", ".join(f"{k}={getattr(v, 'name', v)}" for k, v in opts.items()) or "no options"
            if o["error"]:
                expect("effect", f"merge: {shape}", False, f"merge of a recipe with input '{shape}' raises {o['error']} ({name})")
                continue
            mdt = opts.get("merge_dtype", DT["float64"])
            mdev = opts.get("merge_device", "cpu")
            want = (mdt.name if mdt else "float32", mdev or "cpu")
            expect("effect", f"merge: inputs ({shape})", o["inputs"] == [want], f"merge functions should see inputs on {want}, but see {o['inputs']} ({name}, input '{shape}')")
            odt, odev = opts.get("output_dtype", DT["float16"]), opts.get("output_device", "cpu")
            out = (odt.name if odt else want[0], odev or want[1])
            expect("effect", f"merge: results ({shape})", set(o["results"].values()) == {out} and set(o["results"]) == {*KEYS}, f"results should be {out} for {KEYS}, but are {o['results']} ({name}, input '{shape}')")
        return results

    for s in shapes:
        tasks.append(lambda s=s: casts(s))

    # ---- every option in three ways
    finite_warning = lambda o: any("finite" in l and ("k1" in l) or "nan" in l.lower() and "k1" in l for l in o["logs"])
    options = [
        ("merge_dtype", DT["bfloat16"], DT["float32"], {}, lambda o: o["inputs"] == [("bfloat16", "cpu")]),
        ("merge_dtype", None, DT["float16"], {}, lambda o: o["inputs"] == [("float32", "cpu")]),
        ("merge_device", "cuda", "cpu", {}, lambda o: o["inputs"] == [("float64", "cuda")]),
        ("merge_device", None, "cuda", {}, lambda o: o["inputs"] == [("float64", "cpu")]),
        ("output_dtype", DT["float32"], DT["bfloat16"], {}, lambda o: set(o["results"].values()) == {("float32", "cpu")}),
        ("output_dtype", None, DT["bfloat16"], {}, lambda o: set(o["results"].values()) == {("float64", "cpu")}),
        ("output_device", "cuda", "cpu", {}, lambda o: set(o["results"].values()) == {("float16", "cuda")}),
        ("output_device", None, "cuda", {}, lambda o: set(o["results"].values()) == {("float16", "cpu")}),
        ("threads", 0, 3, {}, lambda o: o["workers"] == []),
        ("threads", 3, 1, {}, lambda o: o["workers"] == [3]),
        ("threads", 1, 0, {}, lambda o: o["workers"] == [1]),
        ("threads", None, 1, {}, lambda o: len(o["workers"]) == 1 and o["workers"][0] != 1),
        ("threads", -1, 1, {}, lambda o: o["error"]),
        ("total_buffer_size", 4096, 2 ** 30, {}, lambda o: not o["error"]),
        ("total_buffer_size", 0, 2 ** 30, {}, lambda o: not o["error"]),
        ("total_buffer_size", 2 ** 30, 4096, {}, lambda o: not o["error"]),
        ("model_dirs", [APath("/other")], [APath("/models")], {}, lambda o: {p for p in o["opened"]} == {"/other/A.safetensors", "/other/B.safetensors"}),
        ("model_dirs", [APath("/none"), APath("/other")], [APath("/models")], {}, lambda o: {p for p in o["opened"]} == {"/other/A.safetensors", "/other/B.safetensors"}),
        ("model_dirs", [APath("/models"), APath("/other")], [APath("/other")], {}, lambda o: {p for p in o["opened"]} == {"/models/A.safetensors", "/models/B.safetensors"}),
        ("strict_weight_space", True, False, {"shape": "delta"}, lambda o: o["error"]),
        ("strict_weight_space", False, True, {"shape": "delta"}, lambda o: not o["error"] and set(o["results"]) == set(KEYS)),
        ("check_finite", True, False, {"finite": False}, finite_warning),
        ("check_finite", False, True, {"finite": False}, lambda o: not finite_warning(o) and not o["error"]),
        ("check_finite", True, False, {}, lambda o: not finite_warning(o)),
        ("omit_extra_keys", True, False, {}, lambda o: set(o["results"]) == {*KEYS}),
        ("omit_extra_keys", False, True, {}, lambda o: set(o["results"]) == {*KEYS, "e1", "extra"}),
        ("omit_ema", True, False, {}, lambda o: set(o["results"]) == {*KEYS}),
        ("omit_ema", False, True, {}, lambda o: set(o["results"]) == {*KEYS, "e1"}),
        ("check_mandatory_keys", True, False, {"shape": "incomplete"}, lambda o: o["error"]),
        ("check_mandatory_keys", False, True, {"shape": "incomplete"}, lambda o: not o["error"] and set(o["results"]) == {"k1"}),
        ("tqdm", Bar, ATqdm, {}, lambda o: o["bars"] == ["Bar"]),
    ]
    combos = [
        ({"omit_extra_keys": False, "omit_ema": True}, lambda o: set(o["results"]) == {*KEYS, "extra"}),
        ({"omit_extra_keys": True, "omit_ema": False}, lambda o: set(o["results"]) == {*KEYS, "e1"}),
        ({"omit_extra_keys": False, "omit_ema": False}, lambda o: set(o["results"]) == {*KEYS, "e1", "extra"}),
        ({"omit_extra_keys": True, "omit_ema": True}, lambda o: set(o["results"]) == {*KEYS}),
    ]

    def one_option(name, value, other, kw, oracle):
        label = f"{name}={getattr(value, 'name', None) or getattr(value, '__name__', None) or value}"
        ref = observe({name: value}, **kw)
        expect("effect", f"merge: {name}", (ref["error"] is None or "error" in oracle.__code__.co_consts) and oracle(ref), f"option {label} does not have its documented effect: {brief(ref)}")
        for how, extra in (("defaults", {}), ("override", {"other": {name: other}}), ("override", {})):
            o = observe({name: value}, how=how, **kw, **extra)
            diff = [k for k in ref if ref[k] != o[k]]
            way = "given to Defaults" if how == "defaults" else f"given to the call, overriding {getattr(other, 'name', other)} of Defaults" if extra else "given to the call"
            expect("defaults", f"Defaults: {name}", not diff, f"option {label} {way} acts differently from merge: {', '.join(f'{k} {o[k]} instead of {ref[k]}' for k in diff)[:300]}", "sd_mecha/helpers.py")
        return results

    def brief(o):
        return ", ".join(f"{k}={o[k]}" for k in ("error", "inputs", "results", "workers", "opened", "bars", "logs"))[:400]

    for spec in options:
        tasks.append(lambda spec=spec: one_option(*spec))

    def several():
        for opts, oracle in combos:
            label = ", ".join(f"{k}={v}" for k, v in opts.items())
            for how in ("direct", "defaults", "override"):
                o = observe(opts, how=how)
                expect("effect", "merge: omit_ema", o["error"] is None and oracle(o), f"{label} ({how}): {brief(o)}")
        o = observe({})
        d = observe({}, how="defaults")
        expect("defaults", "Defaults: no options", o == d, "merging through Defaults without options acts differently from merge", "sd_mecha/helpers.py")
        expect("effect", "merge: defaults", o["error"] is None and o["bars"][:1] == ["ATqdm"] and len(o["workers"]) == 1, f"merge without options: {brief(o)}")
        o = observe({}, shape="delta")
        expect("effect", "merge: strict_weight_space", o["error"], "a recipe in delta space is accepted by default")
        o = observe({}, finite=False)
        expect("effect", "merge: check_finite", finite_warning(o), "non-finite values are not reported by default")
        o = observe({}, shape="incomplete")
        expect("effect", "merge: check_mandatory_keys", not o["error"], "mandatory keys are enforced by default")
        reads = [sum(n for p, n in observe({"total_buffer_size": b, "threads": 0})["reads"] if isinstance(n, int)) for b in (0, 4096, 2 ** 20)]
        expect("effect", "merge: total_buffer_size", reads[0] < reads[1] < reads[2], f"a larger buffer does not make reads larger: {reads}")
        for v in ("/empty", ["/empty"], []):
            for how in ("defaults", "override"):
                o = observe({"model_dirs": v}, how=how)
                expect("defaults", "Defaults: model_dirs", o["error"] and not o["opened"], f"model_dirs={v!r}: {brief(o)}", "sd_mecha/helpers.py")
        # several directories as text and as a single one, through Defaults
        for v in ("/other", APath("/other"), ["/other"], ("/none", "/other"), [APath("/none"), "/other"]):
            for how in ("defaults", "override"):
                o = observe({"model_dirs": v}, how=how)
                expect("defaults", "Defaults: model_dirs", set(o["opened"]) == {"/other/A.safetensors", "/other/B.safetensors"}, f"model_dirs={v!r}: {brief(o)}", "sd_mecha/helpers.py")
        return results

    def outputs():
        for how in ("direct", "defaults"):
            for label, out, where in (("text", "/out/x.safetensors", "/out/x.safetensors"), ("path", APath("/out/x.safetensors"), "/out/x.safetensors"),
                                      ("relative text", "x.safetensors", "/models/x.safetensors"), ("relative path", APath("sub/x.safetensors"), "/models/sub/x.safetensors")):
                for o in observe({"output": out}, how=how, many=True):
                    expect("output", f"merge: output ({label})", o["files"] == [where] and o["returned"] == "NoneType" and not o["error"],
                           f"output {out!r} is saved to {o['files']} and {o['returned']} is returned (expected {where}, None)")
            for o in observe({"output": "x.safetensors", "model_dirs": [APath("/other"), APath("/models")]}, how=how, many=True):
                expect("output", "merge: output (relative)", o["files"] == ["/other/x.safetensors"], f"a relative output goes to {o['files']} instead of the first model directory")
            for o in observe({"output": "x.safetensors", "model_dirs": [APath("a"), APath("b")]}, shape="absolute", many=True):
                expect("output", "merge: output (relative)", o["files"] == ["a/x.safetensors"], f"a relative output goes to {o['files']} instead of the first model directory")
            for t in (0, 2):
                m = []

                def fresh(w, cfg):
                    m[:] = [OutMapping()]
                    m[0].d["old"] = ATensor("old", 2, DT["float32"], models.Size((2,)), True, True, ("old",))
                    return m[0]
                o = observe({"output": fresh, "threads": t}, how=how, result=lambda w, r: r is m[0])
                expect("output", "merge: output (mapping)", o["extra"] and set(o["results"]) == {*KEYS, "old"}, f"a mapping given as output is not filled and returned: {brief(o)}")
                for v in ({}, {"output": None}):
                    o = observe({**v, "threads": t}, how=how)
                    expect("output", "merge: output (none)", o["returned"] == "dict" and set(o["results"]) == {*KEYS} and not o["files"], f"without output, {o['returned']} with {o['results']} is returned")
        return results

    def fallbacks():
        B = lambda w, cfg: w.node("B.safetensors", cfg)
        D = lambda w, cfg: w.node("D.safetensors", cfg)
        merged = lambda w, cfg: w.call(w.m.one, w.node("B.safetensors", cfg))
        mem = lambda w, cfg: w.call(w.literal, {k: w.tensor(f"t_{k}") for k in KEYS}, cfg, "weight")
        for how in ("direct", "defaults"):
            for label, fb, own in (("model", B, lambda v, k: v[:2] == ("file", "/models/B.safetensors")), ("recipe", merged, lambda v, k: v[0] == "one"),
                                   ("in-memory dict", mem, lambda v, k: v == ("tensor", f"t_{k}"))):
                o = observe({"fallback_model": fb}, how=how, shape="incomplete")
                v = o["values"] or {}
                ok = not o["error"] and set(v) == set(KEYS) and v["k1"][:2] == ("file", "/models/D.safetensors") and own(v["k2"], "k2")
                expect("fallback", f"merge: fallback_model ({label})", ok, f"with a {label} as fallback of a model without k2 the result is {o['error'] or v}")
                expect("effect", f"merge: fallback_model ({label})", set((o["results"] or {}).values()) == {("float16", "cpu")}, f"fallback values are not cast to the output dtype: {o['results']}")
                o = observe({"fallback_model": fb}, how=how, shape="model", prepare=lambda k: "missing" if k == "k1" and False else None)
                v = o["values"] or {}
                expect("fallback", f"merge: fallback_model ({label})", set(v) == set(KEYS) and all(x[0] == "one" for x in v.values()), f"the fallback replaces values of the recipe: {v}")
            o = observe({"fallback_model": D}, how=how, shape="incomplete")
            expect("fallback", "merge: fallback_model (model)", set(o["results"] or ()) == {"k1"}, f"a key missing in recipe and fallback: {o['results']}")
            for v in ({}, {"fallback_model": None}):
                o = observe(v, how=how, shape="incomplete")
                expect("fallback", "merge: fallback_model (none)", set(o["results"] or ()) == {"k1"}, f"without fallback: {o['results']}")
        return results

    def converts():
        w = shared()
        w.io.index_exact = True
        conv = anchor(w.prog, "sd_mecha.convert")
        for label, ctor, call, want in (("Defaults", {"model_dirs": ["/other"]}, {}, "/other"), ("the call", {}, {"model_dirs": ["/other"]}, "/other"),
                                        ("both", {"model_dirs": ["/models"]}, {"model_dirs": [APath("/other")]}, "/other"), ("a single directory", {"model_dirs": "/other"}, {}, "/other")):
            def entry():
                w.fresh()
                cfg = w.config({k: ((), False) for k in KEYS})
                for d in ("models", "other"):
                    w.file(f"/{d}/A.safetensors", KEYS)
                d = w.prog.call(w.defaults, (), ctor)
                A = w.node("A.safetensors", cfg)
                r = w.prog.call(w.prog.getattr(d, "convert"), (A, cfg), call)
                return r is A, [f.path for f in w.io.fs.opened]
            for p in Sweep(w.prog, entry):
                ok = p.kind == "return" and p.value[0] and set(p.value[1]) == {f"{want}/A.safetensors"}
                expect("defaults", "Defaults: convert", ok, f"convert with model_dirs given to {label}: {p.value!r}", "sd_mecha/helpers.py")
        return results

    tasks += [several, outputs, fallbacks, converts]
    shared()
    n = 0
    for res in parallel(tasks):
        for rule, construct, ok, msg, file in res:
            n += 1
            rep.obligation(rule, sample=construct)
            if not ok:
                rep.violation(rule, construct, file, msg)
    rep.floor("observations", n, 300)
