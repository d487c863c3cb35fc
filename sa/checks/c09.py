from ..mergelib import *

LEVEL = "fault_enumeration"
RULES = {
    "rejected": "merge raises for the invalid argument",
    "untouched": "when merge rejects its arguments, the output file was not created, opened or changed and an output mapping was not modified",
}
EXPLANATION = ("Abstract interpretation of merge for every way in which it can reject its arguments (threads, merge space, configs, mandatory keys, missing, "
               "malformed or truncated-header model files, nested in every input position, and in the fallback), against an existing file, a new file "
               "and an output mapping, for several thread counts; effects on the output are recorded by the file model and a recording mapping.")
ASSUMPTIONS = ["creating or changing the output goes through the modelled file operations or the given mapping"]
KEYS = ("k1", "k2")
OUT = "/out/m.safetensors"


def check(rep, tier):
    file = "sd_mecha/merging.py"

    def scenario(label, build, output, **opts):
        w = shared()
        w.io.index_exact = True
        w.act = lambda name, key, *a: ATensor(f"{name}_{key}", 2, models.DTYPES["float64"], models.Size((2,)), True, True, (name, key))

        def entry():
            w.fresh()
            cfg = w.config({k: ((), False) for k in KEYS})
            other = w.config({"k1": ((), False)}, "other-impl")
            for f in "AB":
                w.file(f"{f}.safetensors", KEYS)
            w.file("D.safetensors", KEYS[:1])
            w.file("X.safetensors", ["zzz"])
            w.file("bad.safetensors", KEYS, malformed=True)
            w.file("A.unknown", KEYS)
            fs = w.io.fs.files
            fs["/models/short.safetensors"] = ABuffer(fs["/models/A.safetensors"].cut(0, 40))
            if output == "existing":
                w.file(OUT, ["old"])
            before = list(fs[OUT].segs) if OUT in fs else None
            A, B = (w.node(f"{n}.safetensors", cfg) for n in "AB")
            node = lambda n, c=cfg: w.node(f"{n}.safetensors", c)
            o = dict(opts, check_finite=False)
            m = OutMapping()
            m.d["old"] = 1
            o["output"] = m if output == "mapping" else OUT
            recipe, extra = build(w, A, B, node, other)
            o.update(extra)
            try:
                w.run(recipe, **o)
                e = None
            except ControlFlow:
                raise
            except BaseException as x:
                e = x
            problems = []
            if e is None:
                problems.append(("rejected", "merge accepts it"))
            else:
                after = list(fs[OUT].segs) if OUT in fs else None
                how = f"before raising {type(e).__name__}: {str(e)[:80]}"
                if before is None and after is not None:
                    problems.append(("untouched", f"the output file is created {how}"))
                elif before != after or any(f.path == OUT and f.mode != "rb" for f in w.io.fs.opened):
                    problems.append(("untouched", f"the existing output file is opened for writing {how}"))
                if m.log:
                    problems.append(("untouched", f"the output mapping is modified ({m.log[0][0]} {m.log[0][1]}) {how}"))
            return f"{type(e).__name__}: {str(e)[:60]}", problems
        res = []
        for path in Sweep(w.prog, entry):
            if path.kind == "raise":
                raise path.value
            if path.kind != "cut":
                res.append((path.value[0], path.value[1], trace_of(path)))
        return res

    infer = lambda w: anchor(w.prog, "sd_mecha.extensions.model_configs.INFER")
    rejections = {
        "threads=-1": lambda w, A, B, n, o: (w.call(w.m.two, A, B), {"threads": -1}),
        "threads=1.5": lambda w, A, B, n, o: (w.call(w.m.two, A, B), {"threads": 1.5}),
        "threads='2'": lambda w, A, B, n, o: (w.call(w.m.two, A, B), {"threads": "2"}),
        "delta recipe": lambda w, A, B, n, o: (w.call(w.m.delta, A), {}),
        "delta recipe with a fallback": lambda w, A, B, n, o: (w.either(w.call(w.m.delta, A), w.call(w.m.delta, B)), {}),
        "model in delta space": lambda w, A, B, n, o: (w.node("A.safetensors", w.config({k: ((), False) for k in KEYS}), merge_space="delta"), {}),
        "different configs": lambda w, A, B, n, o: (w.call(w.m.two, A, n("D", o)), {}),
        "different configs, in a nested input": lambda w, A, B, n, o: (w.call(w.m.two, w.call(w.m.one, B), w.call(w.m.inner, n("D", o))), {}),
        "different configs, fallback": lambda w, A, B, n, o: (A, {"fallback_model": n("D", o)}),
        "mandatory key missing": lambda w, A, B, n, o: (w.call(w.m.two, A, n("D")), {"check_mandatory_keys": True}),
        "mandatory key missing, keyword input": lambda w, A, B, n, o: (w.call(w.m.kw, A, b=n("D")), {"check_mandatory_keys": True}),
        "mandatory key missing, in-memory dict": lambda w, A, B, n, o: (w.call(w.m.two, A, w.call(w.literal, {"k1": w.tensor("t")}, w.config({k: ((), False) for k in KEYS}), "weight")), {"check_mandatory_keys": True}),
        "mandatory key missing, fallback": lambda w, A, B, n, o: (A, {"check_mandatory_keys": True, "fallback_model": n("D")}),
        "missing file": lambda w, A, B, n, o: (n("gone"), {}),
        "missing file, second input": lambda w, A, B, n, o: (w.call(w.m.many, A, B, n("gone")), {}),
        "missing file, keyword input": lambda w, A, B, n, o: (w.call(w.m.kw, A, b=n("gone")), {}),
        "missing file, dictionary value": lambda w, A, B, n, o: (w.call(w.m.two, A, w.call(w.literal, {"k1": B, "k2": n("gone")}, w.config({k: ((), False) for k in KEYS}))), {}),
        "missing file, fallback": lambda w, A, B, n, o: (A, {"fallback_model": n("gone")}),
        "malformed file": lambda w, A, B, n, o: (w.call(w.m.two, A, n("bad")), {}),
        "incomplete index": lambda w, A, B, n, o: (w.call(w.m.two, A, n("short")), {}),
        "unknown file format": lambda w, A, B, n, o: (w.call(w.m.two, A, w.node("A.unknown", w.config({k: ((), False) for k in KEYS}))), {}),
        "config cannot be inferred": lambda w, A, B, n, o: (w.call(w.m.two, A, n("X", infer(w))), {}),
        "a number in weight space": lambda w, A, B, n, o: (w.call(w.literal, 1.5, None, "weight"), {}),
        "a number": lambda w, A, B, n, o: (w.call(w.literal, 1.5), {}),
    }
    tasks = [(f"{k}, {out}{', ' + ', '.join(f'{a}={b}' for a, b in o.items()) if o else ''}", k, lambda k=k, f=f, out=out, o=o: scenario(k, f, out, **o))
             for k, f in rejections.items() for out in ("existing", "new", "mapping")
             for o in ({}, {"threads": 0}, {"omit_extra_keys": False})
             if not (k.startswith("threads") and "threads" in o) and not (k == "config cannot be inferred" and (o or out != "existing"))]
    shared()
    chunks = [tasks[i::8] for i in range(8)]
    n = 0
    for chunk, rs in zip(chunks, parallel([lambda c=c: [f() for _, _, f in c] for c in chunks])):
        for (name, k, _), res in zip(chunk, rs):
            for exc, problems, trace in res:
                n += 1
                for rule in RULES:
                    rep.obligation(rule, sample=f"{name}: {exc}")
                for rule, msg in problems:
                    rep.violation(rule, f"merge: {k}", file, f"{msg} ({name})", trace)
    rep.floor("scenarios", len(tasks), 150)
    rep.floor("traces", n, 150)
