from ..mergelib import *

LEVEL = "fault_enumeration"
RULES = {
    "closed": "no file opened by merge is open when merge returns or raises",
    "finalised": "a started output file has a complete index when merge is over, and on success lists exactly the computed keys",
    "workers": "no task runs, or can still run, once a file of the merge was closed",
}
EXPLANATION = ("Abstract interpretation of merge with a typestate per file (open/closed), per task (pending/run/cancelled) and for the output (index written): "
               "an error or interruption is injected at every file open, read and write, at malformed, truncated and incomplete inputs, at every rejection of the "
               "arguments, in the key computations, while tasks are submitted and waited for; for threads None/0/2 and both completion orders.")
ASSUMPTIONS = ["garbage collection closes nothing (it may happen arbitrarily late)", "a with-statement on an executor, or shutdown(wait=True), waits for its tasks",
               "buffered file objects write everything or raise"]
KEYS = ("k1", "k2")
FILES = ("A.safetensors", "B.safetensors")
OUT = "/out/m.safetensors"


def check(rep, tier):
    file = "sd_mecha/merging.py"

    def scenario(label, shape="two", setup=None, act=None, threads=2, output=OUT, faults=(), interrupts=False, fails=False, **opts):
        w = shared()
        boom = RuntimeError("boom")

        def do(name, key, *a):
            if act and name in ("inner", "two", "many", "kw") and key in act:
                raise w.missing(key) if act[key] == "missing" else boom
            return ATensor(f"{name}_{key}", 2, models.DTYPES["float64"], models.Size((2,)), True, True, (name, key))
        w.act = do

        def entry():
            w.fresh()
            w.io.interrupts = False
            cfg = w.config({k: ((), False) for k in KEYS})
            for f in FILES:
                w.file(f, KEYS)
            w.file("C.safetensors", KEYS)
            w.file("D.safetensors", KEYS[:1])
            w.file("X.safetensors", ["zzz"])
            w.file("bad.safetensors", KEYS, malformed=True)
            fs = w.io.fs.files
            fs["/models/short.safetensors"] = ABuffer(fs["/models/A.safetensors"].cut(0, 40))
            fs["/models/tiny.safetensors"] = ABuffer(fs["/models/A.safetensors"].cut(0, 4))
            w.file("half.safetensors", KEYS)
            f = fs["/models/half.safetensors"]
            f.segs = f.cut(0, f.alen - 4)
            if output == "existing":
                w.file("/out/m.safetensors", ["old"])
            A, B, C = (w.node(f"{n}.safetensors", cfg) for n in "ABC")
            m, c = w.m, w.call
            names = {n: w.node(f"{n}.safetensors", cfg) for n in ("bad", "short", "tiny", "half", "gone", "D")}
            recipe = {
                "two": lambda: c(m.two, c(m.inner, A), B),
                "kw": lambda: c(m.kw, A, b=c(m.inner, B)),
                "many": lambda: c(m.many, A, B, A, C),
                "dict": lambda: c(m.two, c(w.literal, {"k1": c(m.inner, A), "k2": B}, cfg), C),
                "fallback": lambda: w.either(c(m.inner, A), B),
                "delta": lambda: c(m.delta, A),
                "infer": lambda: c(m.two, A, w.node("X.safetensors", anchor(w.prog, "sd_mecha.extensions.model_configs.INFER"))),
                "same twice": lambda: c(m.two, A, w.node("A.safetensors", cfg)),
                "config": lambda: c(m.two, A, w.node("B.safetensors", w.config({"k1": ((), False)}, "other-impl"))),
            }
            r = recipe[shape]() if shape in recipe else c(m.many, A, c(m.inner, B), names[shape], C)
            w.io.fs.faults = faults
            w.io.interrupts = interrupts
            o = dict(opts, check_finite=False, threads=threads)
            if output is not None:
                o["output"] = OUT if output == "existing" else output
            try:
                w.run(r, **o)
                e = None
            except ControlFlow:
                raise
            except BaseException as x:
                e = x
            w.io.fs.faults, w.io.interrupts = (), False
            problems = []
            for p in dict.fromkeys(w.open_files()):
                problems.append(("closed", f"{p} is still open when merge {'raises ' + type(e).__name__ if e is not None else 'returns'}"))
            if w.io.strays:
                problems.append(("workers", f"a task runs after {w.io.strays[0]} was closed"))
            for ex in w.io.executors:
                if any(not f.done_ and not f.cancelled_ for f in ex.tasks):
                    problems.append(("workers", "a task has not finished when merge is over"))
            if OUT in w.io.fs.files and output and not (output == "existing" and not any(f.path == OUT for f in w.io.fs.opened)):
                p, index = w.saved(OUT)
                want = {k for k in KEYS if not act or act.get(k) != "missing"}
                if p:
                    problems.append(("finalised", p))
                elif e is None and set(index) - {"__metadata__"} != want:
                    problems.append(("finalised", f"the saved index has keys {sorted(set(index) - {'__metadata__'})} instead of {sorted(want)}"))
            return type(e).__name__ if e is not None else None, problems
        res = []
        for path in Sweep(w.prog, entry):
            if path.kind == "cut":
                continue
            if path.kind == "raise":
                raise path.value
            broken_output = any(v and (f"of {OUT} fails" in c or f"opening {OUT} fails" in c) for c, v in path.choices)
            exc, problems = path.value
            if broken_output:
                problems = [p for p in problems if p[0] != "finalised"]
            res.append((exc, problems, trace_of(path)))
        if fails and not any(exc for exc, _, _ in res):
            raise Broken(f"the injected fault has no effect ({label})")
        return res

    tasks = []

    def add(label, **k):
        tasks.append((label, lambda: scenario(label, **k)))
    shapes = ("two", "kw", "many", "dict", "fallback", "same twice")
    for s in shapes:
        for t in (None, 0, 2):
            add(f"recipe '{s}'", shape=s, threads=t)
        add(f"recipe '{s}', into a mapping", shape=s, output=None)
        add(f"recipe '{s}', opening files fails", shape=s, faults=("open",), fails=True)
        add(f"recipe '{s}', extra keys kept", shape=s, omit_extra_keys=False)
    for s in ("bad", "short", "tiny", "gone", "half"):
        for o in (OUT, None):
            add(f"input file is '{s}'", shape=s, output=o, fails=True)
        add(f"input file is '{s}'", shape=s, threads=0, fails=True)
    for t in (None, 0, 2):
        add("key computation fails", act={"k1": "error"}, threads=t, fails=True)
        add("key computation fails", act={"k2": "error"}, threads=t, fails=True)
        add("both key computations fail", act={"k1": "error", "k2": "error"}, threads=t, fails=True)
        add("a key is missing", act={"k1": "missing"}, threads=t)
        add("reading fails", faults=("read",), threads=t, fails=True)
        add("seeking fails", faults=("seek",), threads=t, fails=True)
        add("writing fails", faults=("write",), threads=t, fails=True)
        add("interrupted", interrupts=True, threads=t, fails=True)
    add("interrupted, into a mapping", interrupts=True, output=None, fails=True)
    add("key computation fails, into a mapping", act={"k1": "error"}, output=None, fails=True)
    add("mandatory key is missing", shape="D", check_mandatory_keys=True, fails=True)
    add("recipe is not in weight space", shape="delta", fails=True)
    add("recipe is not in weight space, existing output", shape="delta", output="existing", fails=True)
    add("not in weight space allowed", shape="delta", strict_weight_space=False)
    add("config cannot be inferred", shape="infer", fails=True)
    add("configs differ", shape="config", fails=True)
    add("existing output", output="existing")
    add("invalid thread count", threads=-1, fails=True)
    add("output is in a directory of models", output="m2.safetensors")
    add("fallback model cannot be opened", fallback_model="/models/gone.safetensors", fails=True)

    shared()
    chunks = [tasks[i::8] for i in range(8)]
    n = 0
    for chunk, rs in zip(chunks, parallel([lambda c=c: [f() for _, f in c] for c in chunks])):
        for (name, _), res in zip(chunk, rs):
            for exc, problems, trace in res:
                n += 1
                for rule in RULES:
                    rep.obligation(rule, sample=f"{name}: merge {'raises ' + exc if exc else 'returns'}")
                for rule, msg in problems:
                    rep.violation(rule, f"merge: {name}", file, f"{msg} ({name})", trace)
    rep.floor("scenarios", len(tasks), 60)
    rep.floor("traces", n, 150)
