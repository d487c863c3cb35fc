import itertools
from ..mergelib import *

LEVEL = "other"
RULES = {
    "omitted": "with omit_extra_keys true or by default, only keys of the config are written",
    "forwarded": "with omit_extra_keys false, each key of an input with the config and merge space of the result is in the output, and no other extra key",
    "value": "a forwarded key has the value the recipe gives it, or else that of the first such input that has it",
    "alias": "a key stored under an alias is written once, under its own name",
}
EXPLANATION = ("Abstract interpretation of merges with omit_extra_keys true, false and by default, over recipes of one to three inputs that differ in config, merge space, "
               "container and extra keys, at every kind of position, with in-memory and file outputs; the oracle evaluates the recipe's definition on a presence table.")
ASSUMPTIONS = ["forwarding depends on configs, merge spaces and the presence of names, not on the names themselves"]

# name: (store, config, merge space, keys)
INPUTS = {
    "A": ("file", "c", "weight", ("k", "z", "x")),
    "B": ("file", "c", "weight", ("k", "z", "y", "x")),
    "C": ("file", "c", "weight", ("a1", "z", "x")),
    "D": ("dict", "c", "weight", ("k", "z", "y")),
    "d": ("dict", "c", "weight", ("a1", "z", "u")),
    "P": ("dict", "c", "param", ("k", "z", "v")),
    "Q": ("file", "c", "delta", ("k", "z", "w")),
    "q": ("dict", "c", "delta", ("k", "z", "w", "t")),
    "O": ("file", "other", "weight", ("k", "z", "o")),
}


def check(rep, tier):
    w = shared()

    def act(name, key, *inputs):
        return ATensor("r", 2, models.DTYPES["float32"], models.Size((2,)), True, True, ("act", name, key, tuple(content(i) for i in inputs)))
    w.act = act
    w.io.index_exact = True  # relocation of the data section is C04's concern
    ALIASES = {"k": ("a1",)}

    def look(name, key):
        """content of the key of an input, None if missing"""
        store, _, _, keys = INPUTS[name]
        for n in (key, *ALIASES.get(key, ())):
            if n in keys:
                return ("file", f"/models/{name}.safetensors", 8 * keys.index(n)) if store == "file" else ("tensor", f"{name}.{n}")
        return None

    def shapes():
        leafs = "ABCDd"
        for a in (*leafs, "O"):
            yield a
            yield ("one", a)
            yield ("many", a)
        for a, b in itertools.permutations("ABCDdPQO", 2):
            yield ("two", a, b)
            if {a, b} <= set("ABCDd"):
                yield ("kw", a, b)
                yield ("|", a, b)
                yield ("dict", a, b)
                yield ("sd", a, b)
        for a, b, c in itertools.permutations("ABCd", 3):
            yield ("two", ("one", a), ("two", b, c))
            yield ("many", a, b, c)
            yield ("|", ("two", a, b), c)
            yield ("two", a, ("dict", b, c))
        for a in "ABd":
            for b in "Qq":
                yield ("shift", a, b)
                yield ("shift", ("one", a), ("two", b, b))
                yield ("two", a, ("shift", a, b))
                yield ("shift", a, ("delta", "B"))
        yield ("shift", "A", ("two", "Q", "q"))
        yield ("fallback", ("two", "A", "B"), "C")
        yield ("fallback", "A", "B")
        yield ("fallback", ("one", "A"), "O")
        yield ("two", "A", "A")
        yield ("two", ("one", "A"), "A")

    def spaces(t):
        if isinstance(t, str):
            return INPUTS[t][2], INPUTS[t][1]
        if t[0] == "delta":
            return "delta", spaces(t[1])[1]
        return spaces(t[1])

    def legal(t):
        if isinstance(t, str):
            return True
        subs = [spaces(s) for s in t[1:]]
        if t[0] == "shift":
            return all(map(legal, t[1:]))
        return all(map(legal, t[1:])) and all(s == subs[0] for s in subs)

    def value(t, key):
        if isinstance(t, str):
            return look(t, key)
        if t[0] in ("|", "fallback"):
            return value(t[1], key) or value(t[2], key)
        if t[0] == "dict":
            i = {"k": 1, "z": 2}.get(key)
            return value(t[i], key) if i else None
        vs = tuple(value(s, key) for s in t[1:])
        return None if None in vs else ("act", t[0], key, vs)

    def leaves(t):
        if isinstance(t, str):
            return [t]
        return [l for s in t[1:] for l in leaves(s)]

    def scenario(shape, omit, out, dtype):
        def entry():
            w.fresh()
            w.io.orders = False
            cfgs = {"c": w.config({"k": (("a1",), False), "z": ((), False)}), "other": w.config({"k": ((), False), "z": ((), False)}, "arch-other")}
            made = {}

            def leaf(n):
                if n not in made:
                    store, c, space, keys = INPUTS[n]
                    if store == "file":
                        w.file(f"{n}.safetensors", keys)
                        made[n] = w.node(f"{n}.safetensors", cfgs[c], merge_space=space)
                    else:
                        made[n] = w.call(w.literal, {k: w.tensor(f"{n}.{k}") for k in keys}, cfgs[c], space)
                return made[n]

            def build(t):
                if isinstance(t, str):
                    return leaf(t)
                subs = [build(s) for s in t[1:]]
                if t[0] == "|":
                    return w.either(*subs)
                if t[0] == "dict":
                    return w.call(w.literal, dict(zip(("k", "z"), subs)), cfgs["c"])
                if t[0] == "kw":
                    return w.prog.call(w.m.kw, (subs[0],), {"b": subs[1]})
                return w.call(getattr(w.m, t[0]), *subs)
            opts = dict(threads=0, check_finite=False, strict_weight_space=False)
            if not dtype:
                opts.update(merge_dtype=None, merge_device=None, output_dtype=None, output_device=None)
            if omit is not None:
                opts["omit_extra_keys"] = omit
            if shape[0] == "fallback":
                opts["fallback_model"] = build(shape[2])
                top = build(shape[1])
            else:
                top = build(shape)
            if out == "file":
                opts["output"] = "/models/out.safetensors"
                w.run(top, **opts)
                problem, index = w.saved("/models/out.safetensors")
                if problem:
                    raise ValueError(problem)
                return {k: None for k in index if k != "__metadata__"}
            return dict(w.run(top, **opts))

        what = f"merging {show(shape)} with omit_extra_keys={omit}{' to a file' if out == 'file' else ''}"
        space, cfg = spaces(shape)
        fwd = [l for l in dict.fromkeys(leaves(shape)) if INPUTS[l][1:3] == (cfg, space)]
        keys = {"k": None, "z": None}
        if omit is False:
            canon = {"a1": "k"} if cfg == "c" else {}
            for l in fwd:
                for k in INPUTS[l][3]:
                    keys[canon.get(k, k)] = None
        want = {}
        for k in keys:
            v = value(shape, k)
            if v is None and omit is False:
                v = next((look(l, k) for l in fwd if look(l, k) is not None), None)
            if v is not None:
                want[k] = v
        res = []
        for p in w.prog.explore(entry):
            if p.kind == "raise":
                res.append(("forwarded", False, f"{what} fails with {p.value!r}"))
                continue
            if p.kind != "return":
                continue
            got = p.value
            rule = "forwarded" if omit is False else "omitted"
            if "a1" in got and "a1" not in want:
                res.append(("alias", False, f"{what}: the alias is written as a key: {sorted(got)}"))
            else:
                if cfg == "c":
                    res.append(("alias", True, ""))
                res.append((rule, set(got) == set(want), f"{what}: the output has the keys {sorted(got)} instead of {sorted(want)}"))
            for k in got:
                if k in want and got[k] is not None:
                    ok = isinstance(got[k], ATensor) and norm(got[k]) == want[k]
                    res.append(("value", ok, f"{what}: '{k}' is {norm(got[k])} instead of {want[k]}"))
        return res

    jobs = []
    for i, s in enumerate(s for s in shapes() if legal(s)):
        for omit in (False, True, None):
            for out in ("dict", "file"):
                for dtype in (False, True):
                    if tier == "quick" and ((out == "file") + dtype + (omit is not False)) > 1 and i % 5:
                        continue
                    jobs.append((s, omit, out, dtype))
    chunks = [jobs[i::8] for i in range(8)]
    n = 0
    for res in parallel([lambda c=c: [(j, r) for j in c for r in scenario(*j)] for c in chunks]):
        for j, (rule, ok, msg) in res:
            n += 1
            rep.obligation(rule, sample=repr(j))
            if not ok:
                rep.violation(rule, "copy of extra keys" if rule != "omitted" else "keys of the output", "sd_mecha/merging.py", msg)
    rep.floor("scenarios", len(jobs), 200)
    rep.floor("outcomes", n, 600)


def strip(c):
    if isinstance(c, tuple):
        while c and c[0] == "cast":
            c = c[1]
        return tuple(strip(x) for x in c)
    return c


def norm(t):
    return strip(content(t))


def show(s):
    return s if isinstance(s, str) else f"{s[0]}({', '.join(map(show, s[1:]))})"
