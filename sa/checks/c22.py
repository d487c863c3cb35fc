from ..methodlib import *

LEVEL = "other"
RULES = {
    "source": "every random number a seeded method draws comes from a generator created in the same call",
    "seed": "that generator is seeded from the seed given and from nothing else",
    "global": "a seeded method neither draws from nor reseeds a generator shared with others",
    "same": "the same seed and inputs give the same result, whatever was merged before and whichever other keys are merged",
    "different": "another seed gives other random numbers, and no seed gives new ones each time",
}
EXPLANATION = ("Abstract interpretation of whole merges with every registered merge method that has a seed, every value of its options, several seeds, twice in a row and over two keys. Every draw of torch, numpy and random "
               "is an event on its generator; the value drawn is an opaque function of the state of that generator, so that results are equal exactly when the source of randomness is.")
ASSUMPTIONS = ["a generator seeded with the same number gives the same numbers; floating point kernels are deterministic"]
SEEDS = (0, 1, 7)


def check(rep, tier):
    m = methods()
    p, lib = m.prog, m.lib
    p.io.orders = False
    seeded = [n for n, mm in m.methods().items() if any(o == "seed" for o, _, _ in m.spec(mm).options)]
    cases = []
    for c in m.cases(tier, only=seeded):
        o = {k: v for k, v in c[1].items() if k != "seed"}
        c = (c[0], o, c[2], c[3])
        if c not in cases and (tier == "thorough" or c[2] in ((), (3, 4), (2, 3, 3, 3))):
            cases.append(c)

    def judge(case):
        name = case[0]
        res, n = [], collections.Counter()

        def entry():
            out = []
            cfg = {ks: m.config(ks, f"arch-{'and'.join(ks)}") for ks in (("k", "l"), ("l", "k"), ("l",))}
            made = {ks: m.inputs(case, ks, cfg[ks]) for ks in cfg}

            def run(seed, ks):
                args, kw, _ = made[ks]
                lib.events.clear()
                before = list(lib.generators)
                got = m.merge(m.node(name, args, {**kw, "seed": seed}), threads=2)
                draws = [e for e in lib.events if e["kind"] == "draw"]
                shared = [e for e in lib.events if e["kind"] == "reseed"]
                n["draws"] += len(draws)
                at = f"{told(case)}, seed={seed}"
                for e in draws:
                    g = e["gen"]
                    where = f"{name} at {e['at']}"
                    if isinstance(g, tensorlib.GlobalRng):
                        out.append(("global", False, where, e["at"], f"{at}: {e['what']} draws from the generator all of {g.kind} share"))
                        continue
                    out.append(("source", not any(g is b for b in before), where, e["at"], f"{at}: {e['what']} draws from a generator of an earlier call"))
                    tasks = {id(f["task"]) for f in draws if f["gen"] is g}
                    out.append(("source", len(tasks) == 1, where, e["at"], f"{at}: {e['what']} draws from a generator shared by several keys"))
                    kind = e["seeded"][0]
                    out.append(("seed", kind == ("random" if seed is None else "seed"), where, e["at"], f"{at}: {e['what']} draws from a generator that is {'not seeded' if kind == 'random' else 'seeded with ' + str(e['seeded'][1:])}"))
                if not shared:
                    out.append(("global", True, name, "", ""))
                for e in shared:
                    out.append(("global", False, f"{name} at {e['at']}", e["at"], f"{at}: {e['what']} reseeds a generator shared with others"))
                return dict(got), draws
            a, da = run(0, ("k", "l"))
            has = bool(da)
            if not has:
                return out
            n["random"] += 1

            def eq(x, y, rule, want, what):
                if not want and "draw" not in tensorlib.ops(x.expr):
                    return                                            # nothing or everything is dropped
                out.append((rule, tensorlib.same(x.expr, y.expr) == want, f"{name}: {what}", "", f"{told(case)}: {what}: the results are {'different' if want else 'the same'}"))
            b, _ = run(0, ("k", "l"))
            rev, _ = run(0, ("l", "k"))
            solo, _ = run(0, ("l",))
            other, _ = run(7, ("k", "l"))
            for k in ("k", "l"):
                eq(a[k], b[k], "same", True, "the same merge twice")
                eq(a[k], rev[k], "same", True, "keys in another order")
                eq(a[k], other[k], "different", False, "two seeds")
            eq(a["l"], solo["l"], "same", True, "one key alone")
            x, _ = run(None, ("k", "l"))
            y, _ = run(None, ("k", "l"))
            for k in ("k", "l"):
                eq(x[k], y[k], "different", False, "no seed, twice")
            # each key has the same numbers available
            s = {}
            for e in da:
                s.setdefault(id(e["task"]), []).append((e["seeded"], e["what"]))
            out.append(("seed", len({repr(sorted(map(repr, v))) for v in s.values()}) == 1, f"{name}: seeds by key", "", f"{told(case)}: the generators of different keys are seeded differently from the same seed"))
            return out
        for path in m.each(entry, 40 if tier == "thorough" else 8):
            n["traces"] += 1
            n[f"method {name}"] += 1
            if path.kind == "return":
                res += [(*r, trace_of(path)) for r in path.value]
        return n, res
    counts, bad = sweep(m, cases, judge)
    rep.unit(*seeded)
    for k in RULES:
        rep.obligation(k, counts["ok " + k])
    for r in bad:
        rep.violation(r[0], r[2], r[3], r[4], r[5])
    rep.floor("seeded merge methods", len(seeded), 2)
    rep.floor("draws", counts["draws"], 2000)
    rep.floor("traces with random numbers", counts["random"], 80)
