from ..mergelib import *

LEVEL = "fault_enumeration"
RULES = {
    "raises": "an error of a key's computation, of any of its inputs or of its store makes merge raise",
    "omits": "exactly the keys whose computation raised the missing-key error are left out",
}
EXPLANATION = ("Abstract interpretation of merge over recipes of every node kind with two keys: every combination of inputs that succeed, are missing the "
               "key or raise (several exception classes), truncated input files, failing stores into a mapping and failing writes of a file, for "
               "threads None/0/2, tasks completing in either order and cancelled tasks that had already started.")
ASSUMPTIONS = ["an executor runs each submitted call at most once and before a waiting shutdown returns; a future hands on the exception of its call"]
KEYS = ("k1", "k2")


def recipes(w, A, B):
    m, c = w.m, w.call
    i, o = c(m.inner, A), c(m.other, B)
    return {
        "method": (c(m.inner, A), lambda s: s["inner"]),
        "positional inputs": (c(m.two, i, o), lambda s: both(s["inner"], s["other"], s["two"])),
        "keyword input": (c(m.kw, i, b=o), lambda s: both(s["inner"], s["other"], s["kw"])),
        "variadic inputs": (c(m.many, o, i, A), lambda s: both(s["inner"], s["other"], s["many"])),
        "nested input": (c(m.two, c(m.one, i), o), lambda s: both(both(s["inner"], {"ok"}, s["one"]), s["other"], s["two"])),
        "state dict input": (c(m.sd, i, o), lambda s: lazy(s["other"], s["inner"], s["sd"])),
        "fallback": (w.either(i, o),
                     lambda s: s["inner"] - {"missing"} | (s["other"] if "missing" in s["inner"] else set())),
    }


def both(a, b, out):
    if "error" in a | b:
        return {"error"}
    if "missing" in a | b:
        return {"missing"}
    return out


def lazy(b, a, out):
    if "error" in b:
        return {"error"}
    if "missing" in b:
        return {"missing", "error"} if "error" in a else {"missing"}
    return both(a, b, out)


def check(rep, tier):
    file = "sd_mecha/merging.py"
    errors = {"RuntimeError": RuntimeError("boom"), "KeyError": KeyError("boom"), "ValueError": ValueError("boom"), "Custom": Custom("boom"),
              "AttributeError": AttributeError("boom"), "StopIteration": StopIteration(), "OSError": OSError("boom"), "TypeError": TypeError("boom"),
              "AssertionError": AssertionError("boom"), "KeyboardInterrupt": KeyboardInterrupt()}

    def scenario(kind, statuses, exc="RuntimeError", threads=..., setup=None, output=None, oracle=None, k2={}):
        """runs merge; statuses: {method: status} of key k1"""
        w = shared()
        w.io.index_exact = True
        expected = {}

        def act(name, key, *a):
            st = (statuses if key == "k1" else k2).get(name, "ok")
            if st == "missing":
                raise w.missing(key)
            if st == "error":
                raise errors[exc]
            return ATensor(f"{name}_{key}", 2, models.DTYPES["float64"], models.Size((2,)), True, True, (name, key) + tuple(content(x) for x in a))
        w.act = act

        def entry():
            w.fresh()
            w.file("A.safetensors", KEYS)
            w.file("B.safetensors", KEYS)
            cfg = w.config({k: ((), False) for k in KEYS})
            if setup:
                setup(w)
            rs = recipes(w, w.node("A.safetensors", cfg), w.node("B.safetensors", cfg))
            recipe, spec = rs[kind]
            for k, st in (("k1", statuses), ("k2", k2)):
                s = {n: {st.get(n, "ok")} for n in ("inner", "other", "one", "two", "kw", "many", "sd")}
                expected[k] = oracle(k) if oracle else spec(s)
            out = output() if callable(output) else output
            opts = {"check_finite": False}
            if threads is not ...:
                opts["threads"] = threads
            if out is not None:
                opts["output"] = out
            r = w.run(recipe, **opts)
            w.drain()
            if isinstance(out, str):
                segs = w.io.fs.files[out].segs
                return set(w.io.fs.jsons[segs[1][1][1]._args[0]]) - {"__metadata__"}
            return set(r)
        label = f"{kind}, " + ", ".join(f"{k} {v}" for k, v in statuses.items()) + (f" ({exc})" if "error" in statuses.values() else "")
        res = []
        for path in Sweep(w.prog, entry):
            if path.kind == "cut":
                continue
            broke = any(v and c.endswith("fails'") for c, v in path.choices)
            must = [k for k in KEYS if expected.get(k) == {"error"}]
            may = any("error" in expected.get(k, ()) for k in KEYS) or broke
            if path.kind == "raise":
                ok = may
                msg = f"merge raises {path.value!r} although no key failed ({label})"
                rule = "omits"
            else:
                ok = not (must or broke)
                msg, rule = f"merge returns normally although {'key ' + must[0] if must else 'a file operation'} failed ({label})", "raises"
                if ok:
                    sure = {k for k in KEYS if expected[k] == {"ok"}}
                    possible = {k for k in KEYS if "ok" in expected[k]}
                    ok = sure <= path.value <= possible
                    msg, rule = f"the output has keys {sorted(path.value)} instead of {sorted(sure)} ({label})", "omits"
            res.append((ok, rule, msg, trace_of(path)))
        return res

    S = ("ok", "missing", "error")
    tasks = []

    def add(name, *a, **k):
        tasks.append((name, lambda: scenario(*a, **k)))
    for kind, outer in (("positional inputs", "two"), ("keyword input", "kw"), ("variadic inputs", "many"), ("nested input", "two"),
                        ("state dict input", "sd"), ("fallback", None)):
        for a in S:
            for b in S:
                for c in (S if outer and a == b == "ok" else ("ok",)):
                    st = {"inner": a, "other": b}
                    if outer:
                        st[outer] = c
                    add(kind, kind, st)
    for e in errors:
        add("method raising", "method", {"inner": "error"}, exc=e)
        add("input raising", "positional inputs", {"inner": "missing", "other": "error"}, exc=e)
        add("input raising", "positional inputs", {"inner": "error", "other": "missing"}, exc=e)
        add("fallback raising", "fallback", {"inner": "error"}, exc=e)
    for t in (None, 0, 1, 2):
        for st in S:
            add(f"threads={t}", "method", {"inner": st}, threads=t)
        add(f"threads={t}", "method", {"inner": "missing"}, threads=t, k2={"inner": "error"})
    for e in ("RuntimeError", "KeyError", "OSError"):
        for t in (None, 0):
            add("store into the output fails", "method", {}, threads=t, output=lambda e=e: OutMapping({"k1": errors[e]}), oracle=lambda k: {"error" if k == "k1" else "ok"})
            add("store into the output fails", "method", {"inner": "missing"}, threads=t, output=lambda e=e: OutMapping({"k2": errors[e]}),
                oracle=lambda k: {"error" if k == "k2" else "missing"})

    def truncated(w):
        f = w.io.fs.files["/models/B.safetensors"]
        f.segs = f.cut(0, f.alen - 4)
    for kind in ("positional inputs", "keyword input", "state dict input"):
        add("input file is truncated", kind, {}, setup=truncated, oracle=lambda k: {"error" if k == "k2" else "ok"})

    def faults(w):
        w.io.fs.faults = ("write",)
    add("writing the output fails", "method", {}, setup=faults, output="/out/m.safetensors")
    add("writing the output fails", "method", {}, threads=0, setup=faults, output="/out/m.safetensors")
    add("output file", "method", {"inner": "missing"}, output="/out/m.safetensors")

    shared()
    chunks = [tasks[i::8] for i in range(8)]
    n = 0
    for chunk, rs in zip(chunks, parallel([lambda c=c: [f() for _, f in c] for c in chunks])):
        for (name, _), res in zip(chunk, rs):
            for ok, rule, msg, trace in res:
                n += 1
                for r in RULES:
                    rep.obligation(r, sample=name)
                if not ok:
                    rep.violation(rule, f"merge: {name}", file, msg, trace)
    rep.floor("scenarios", len(tasks), 60)
    rep.floor("traces", n, 100)
