import itertools
from ..mergelib import *

LEVEL = "other"
RULES = {
    "mandatory": "with the check on, a merge is rejected exactly when a non-optional key of an input's config is present under none of its names",
    "off": "with the check off, a merge is never rejected for missing keys",
    "extra": "keys outside the config never cause a rejection",
    "reported": "keys outside the config are reported when they are left out",
}
EXPLANATION = ("Abstract interpretation of merges over every combination of optional/mandatory keys, aliases present or not, extra keys, kind of container and place of the "
               "input in the recipe, with the check on, off and by default, and extra keys left out or kept; the oracle is the presence table.")
ASSUMPTIONS = ["validation depends on the presence of names, not on the names themselves"]
OPTS = dict(merge_dtype=None, merge_device=None, output_dtype=None, output_device=None, threads=0, check_finite=False)
PLACES = ("root", "first argument", "second argument", "variadic argument", "keyword argument", "state dict argument", "dictionary value", "fallback", "same file, other config")
STORES = ("file", "dict", "numbers")
# (aliases of the key, optional, names present)
KEYS = [((), o, p) for o in (False, True) for p in ((), ("k",))]
KEYS += [(("a1", "a2"), o, p) for o in (False, True) for p in ((), ("k",), ("a1",), ("a2",), ("a1", "k"), ("a2", "a1"))]


def check(rep, tier):
    w = shared()
    w.act = lambda name, key, *a: a[0]

    def scenario(store, place, keyspec, extra, mandatory, omit):
        aliases, optional, present = keyspec
        bad = not optional and not present

        def entry():
            w.fresh()
            w.io.orders = False
            cfg = w.config({"k": (aliases, optional), "z": ((), False)})
            plain = w.config({"k": (aliases, True), "z": ((), True)})
            names = (*present, "z", *(("x1", "x2") if extra else ()))
            if store == "file":
                w.file("A.safetensors", names)
                node = w.node("A.safetensors", cfg)
            else:
                node = w.call(w.literal, {n: 1.5 if store == "numbers" else w.tensor(n) for n in names}, cfg, "weight")

            def fresh():
                return w.call(w.literal, {n: 2.5 if store == "numbers" else w.tensor(n) for n in ("k", "z")}, cfg, "weight")
            m, c = w.m, w.call
            top = {
                "root": lambda: node,
                "first argument": lambda: c(m.two, node, fresh()),
                "second argument": lambda: c(m.two, fresh(), node),
                "variadic argument": lambda: c(m.many, fresh(), fresh(), node),
                "keyword argument": lambda: c(m.kw, fresh(), b=node),
                "state dict argument": lambda: c(m.sd, node, fresh()),
                "dictionary value": lambda: c(w.literal, {"k": fresh(), "z": node}, cfg),
                "fallback": lambda: w.either(fresh(), node),
                "same file, other config": lambda: c(m.two, w.node("A.safetensors", plain), node),
            }[place]()
            opts = dict(OPTS, strict_weight_space=False)
            if mandatory is not None:
                opts["check_mandatory_keys"] = mandatory
            if omit is not None:
                opts["omit_extra_keys"] = omit
            try:
                out = w.run(top, **opts)
            except ControlFlow:
                raise
            except Exception as e:
                return "rejected", e, list(w.io.logs)
            return "merged", dict(out), list(w.io.logs)

        where = f"{store} with {{{', '.join(present)}}}{' and extra keys' if extra else ''} as {place}, {'optional' if optional else 'mandatory'} key with aliases ({', '.join(aliases)}), check_mandatory_keys={mandatory}, omit_extra_keys={omit}"
        res = []
        for p in w.prog.explore(entry):
            if p.kind == "raise":
                raise p.value
            if p.kind != "return":
                continue
            kind, v, logs = p.value
            want = "rejected" if bad and mandatory else "merged"
            rule = "mandatory" if mandatory else "off"
            if extra and want == "merged" and (kind == "rejected" or mandatory):
                rule = "extra"
            res.append((rule, kind == want, f"{where}: the merge is {kind}{f' with {v!r}' if kind == 'rejected' else ''}"))
            if kind == "rejected" and want == "rejected":
                names = ("k", *aliases)
                res.append(("mandatory", any(n in str(v) for n in names) and not isinstance(v, w.missing), f"{where}: the error {v!r} does not name the missing key"))
            if kind == "merged" and omit is not False and (want == "merged"):
                told = any("x1" in l and "x2" in l for l in logs)
                said = any("x1" in l or "x2" in l for l in logs)
                res.append(("reported", told if extra else not said and not any("xtra" in l for l in logs), f"{where}: the warnings are {logs}"))
        return res

    jobs = []
    for store, place, ks, extra, mand, omit in itertools.product(STORES, PLACES, KEYS, (False, True), (True, False, None), (None, True, False)):
        if store != "file" and place.startswith("same"):
            continue
        if omit is False and store == "numbers":
            pass
        if tier == "quick" and (mand is None) + (omit is not None) + (store != "file") + (place != "root") > 2:
            continue
        jobs.append((store, place, ks, extra, mand, omit))
    # files of an unknown architecture
    def unknown(mand):
        def entry():
            w.fresh()
            w.io.orders = False
            w.file("A.safetensors", ("k1", "k2"))
            w.file("B.safetensors", ("k1",))
            A, B = w.prog.call(w.model, ("A.safetensors",), {}), w.prog.call(w.model, ("B.safetensors",), {})
            return w.run(w.call(w.m.two, A, B), check_mandatory_keys=mand, **OPTS) is not None
        return [("mandatory" if mand else "off", p.kind != "raise", f"two files of an unknown architecture with different keys, check_mandatory_keys={mand}: the merge fails with {p.value!r}")
                for p in w.prog.explore(entry) if p.kind in ("raise", "return")]

    chunks = [jobs[i::7] for i in range(7)]
    n = 0
    tasks = [lambda: [(("file of an unknown architecture", "input"), r) for m in (True, False) for r in unknown(m)]]
    tasks += [lambda c=c: [(j, r) for j in c for r in scenario(*j)] for c in chunks]
    for res in parallel(tasks):
        for j, (rule, ok, msg) in res:
            n += 1
            rep.obligation(rule, sample=repr(j))
            if not ok:
                rep.violation(rule, f"{j[0]} as {j[1]}", "sd_mecha/merging.py", msg)
    rep.floor("scenarios", len(jobs), 800)
    rep.floor("merges", n, 800)
