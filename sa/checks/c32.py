from ..methodlib import *
from ..tensorlib import same, substitute

LEVEL = "other"
RULES = {
    "others": "the result of a key is the same whichever other keys are merged and in whichever order",
    "interleaving": "the result of a key is the same when its computation is preempted anywhere by that of another key",
    "cache": "a result computed with a cache, empty or filled by earlier merges of the same inputs with any options, is the one computed without a cache",
    "entries": "the entries a cache holds are kept, unchanged, by later merges",
    "accepted": "a merge that raises no error alone raises none when another key or a cache is involved",
}
EXPLANATION = ("Abstract interpretation of whole merges over two keys with every registered merge method of tensors and nested recipes: both orders of the keys, each key alone, with no cache, an empty cache, and a cache filled by "
               "another key or by other options; and with two worker threads, where the task of one key is preempted by the whole task of the other at every place where it reads or writes an attribute, stores into a container or calls torch "
               "(one preemption per merge). Results are symbolic expressions over the inputs, compared for identity.")
ASSUMPTIONS = ["one preemption between two tasks, the preempting task runs to its end", "rounding of cached values is out of scope", "numbers drawn from a generator that all threads share are taken for equal (C22 decides where they come from)"]
WHERE = "sd_mecha/extensions/builtin/merge_methods"
KEYS = ("k", "l")


def canon(e):
    """random numbers of an unseeded generator are all alike"""
    if not terms.is_term(e):
        return e
    sub = {t: tensorlib.T("draw", "shared", *t._args[2:]) for t in terms.walk(e) if t._op == "draw" and isinstance(t._args[0], tuple) and t._args[0][0] in ("global", "random")}
    return substitute(e, sub) if sub else e


def alike(x, y):
    if not isinstance(x, TT) or not isinstance(y, TT):
        return type(x) is type(y)
    return same(canon(x.expr), canon(y.expr)) and tuple(x.shape) == tuple(y.shape)


def check(rep, tier):
    m = methods()
    p, lib = m.prog, m.lib
    p.io.orders = False
    mm = m.methods()

    # recipes: a name, what it is made of, and build(options) -> recipe from the models of one trace
    def nested(kind):
        def build(models):
            call = lambda n, *a, **k: p.call(mm[n], a, k)
            a, b, c, d = (models[x] for x in "abcd")
            if kind == "tree":
                return call("weighted_sum", call("slerp", a, b), call("n_average", b, c, d), alpha=0.25)
            if kind == "shared":
                delta = call("subtract", b, a)
                return call("add_difference", a, call("n_average", delta, delta, call("subtract", c, a)), alpha=0.5)
            if kind == "fallback":
                return a | call("weighted_sum", b, c) | d
        return build
    NESTED = ("tree", "shared", "fallback")
    cases = []
    for c in m.cases(tier):
        o = {k: v for k, v in c[1].items()}
        if "seed" in {x for x, _, _ in m.spec(mm[c[0]]).options}:
            o["seed"] = 7
        if tier == "thorough" or c[2] in ((3, 4), (2, 3, 3, 3)) and len(o) < 3 + ("maxiter" in o) or c[2] == () and len(c[1]) < 1 + ("maxiter" in o):
            c = (c[0], o, c[2], c[3])
            if c not in cases:
                cases.append(c)
    def simple(o):
        return len(o) < 2 + ("maxiter" in o) + ("seed" in o)
    again = collections.defaultdict(list)
    for c in cases:
        if simple(c[1]) or tier == "thorough":
            again[c[0], c[2], c[3]].append(c[1])

    # inputs are dictionaries whose keys are in a given order; the atoms are named after input and key, so they are the same in every merge
    def run(case, ks, options=None, cache=None, watch=None, threads=2):
        name, o, shape, n = case
        node = recipe(case if options is None else (name, options, shape, n), ks)
        if cache is not None:
            p.call(p.getattr(node, "set_cache"), (cache,), {})
        if watch is not None:
            p.io.interleave = watch
        try:
            return dict(m.merge(node, threads=threads))
        finally:
            p.io.interleave = None

    def recipe(case, ks):
        name = case[0]
        cfg = m.config(ks, f"arch-{'and'.join(ks)}")
        if name in NESTED:
            return nested(name)({x: p.call(m.w.literal, ({k: lib.input(f"{x}.{k}", case[2]) for k in ks}, cfg, "weight"), {}) for x in "abcd"})
        args, kw, _ = m.inputs(case, ks, cfg)
        return m.node(name, args, kw)

    def exprs(d, path=()):
        out = {}
        for k, v in dict(d).items():
            if isinstance(v, dict):
                out.update(exprs(v, path + (k,)))
            else:
                out[path + (k,)] = (v, v.expr if isinstance(v, TT) else v)
        return out

    def judge(job):
        case, what = job
        name = case[0]
        told_ = told(case) if name not in NESTED else f"the recipe '{name}' of shape {case[2]}"
        everywhere = tier == "thorough" or name in NESTED or name in ("weighted_sum", "n_average")          # elsewhere: inside the merge method
        res, n = [], collections.Counter()

        def compare(out, rule, got, want, text):
            for k in want:
                if k in got:
                    out.append((rule, alike(got[k], want[k]), f"{name}: {text}", WHERE, f"{told_}: {text}: the result for {k} is {brief(got[k])}, not {brief(want[k])}"))
                elif k in KEYS:
                    out.append((rule, False, f"{name}: {text}", WHERE, f"{told_}: {text}: there is no result for {k}"))

        def entry():
            out = []
            try:
                base = run(case, KEYS)
            except ControlFlow:
                raise
            except Exception:
                return None
            try:
                if what == "keys":
                    compare(out, "others", run(case, KEYS[::-1]), base, "keys in another order")
                    for k in KEYS:
                        compare(out, "others", run(case, (k,)), {k: base[k]}, "one key alone")
                elif what == "interleave":
                    io = p.io
                    state = {"first": None, "tasks": 0}

                    def watch(fut, body):
                        state["tasks"] += 1
                        if state["first"] is not None:
                            return body()
                        state["first"] = fut
                        io.points = set()


                        def step(kind, obj):
                            if kind == "statement" or kind == "item" and isinstance(obj, (dict, list)) or kind == "attribute" and hasattr(type(obj), "__dict__") and getattr(type(obj), "__module__", "").startswith("sd_mecha"):
                                if everywhere or any("builtin" in f[1].__name__ for f in p.stack):
                                    io.sched(kind)

                        def other():
                            p.step = None
                            for f in fut.ex.tasks:
                                if f is not fut:
                                    f.run()
                        p.step = step
                        try:
                            return io.preempt_with(other, body)
                        finally:
                            p.step = None
                    got = run(case, KEYS, cache={}, watch=watch)
                    n["interleaved" if io.fired else "not interleaved"] += 1
                    compare(out, "interleaving", got, base, "preempted by the other key")
                    if io.fired:
                        out[:] = [(r, ok, c, io.fired.rpartition(" at ")[2], f"{t} (preempted at {io.fired})") for r, ok, c, _, t in out]
                else:
                    cache = {}
                    compare(out, "cache", run(case, KEYS, cache=cache), base, "with an empty cache")
                    held = exprs(cache)
                    n["cached"] += len(held)
                    if not held:
                        return out
                    had = dict(held)
                    compare(out, "cache", run(case, KEYS, cache=cache), base, "with the cache of the same merge")
                    compare(out, "cache", run(case, KEYS[::-1], cache=cache), base, "with the cache of the same merge, keys in another order")
                    other = {}
                    run(case, ("k",), cache=other)
                    compare(out, "cache", run(case, KEYS, cache=other), base, "with the cache of another key")
                    for o in again[name, case[2], case[3]]:
                        if o is case[1]:
                            continue
                        text = f"with a cache filled with {show_options(o)}"
                        c = {}
                        run(case, KEYS, options=o, cache=c)
                        before = exprs(c)
                        compare(out, "cache", run(case, KEYS, cache=c), base, "with a cache filled with other options")
                        out[-2:] = [(r, ok, cc, l, t.replace("with a cache filled with other options", text)) for r, ok, cc, l, t in out[-2:]]
                        now = exprs(c)
                        for k, (v, e) in before.items():
                            ok = k in now and (now[k][0] is v and now[k][1] is e or isinstance(v, TT) and isinstance(now[k][0], TT) and same(now[k][1], e))
                            out.append(("entries", ok, f"{name}: entry {'/'.join(map(str, k[1:]))}", WHERE, f"{told_} {text}: the entry {'/'.join(map(str, k))} of the cache is {'changed' if k in now else 'removed'}"))
                        n["refilled"] += 1
                    now = exprs(cache)
                    for k, (v, e) in had.items():
                        ok = k in now and (now[k][0] is v and now[k][1] is e or isinstance(v, TT) and isinstance(now[k][0], TT) and same(now[k][1], e))
                        out.append(("entries", ok, f"{name}: entry {'/'.join(map(str, k[1:]))}", WHERE, f"{told_}: the entry {'/'.join(map(str, k))} of the cache is {'changed' if k in now else 'removed'} by the same merge"))
            except ControlFlow:
                raise
            except Exception as e:
                if isinstance(e, (TypeError, AttributeError)) and "sa/" in repr(e):
                    raise
                out.append(("accepted", False, f"{name}: {what}", WHERE, f"{told_}: {what}: {e!r}"))
            else:
                out.append(("accepted", True, name, "", ""))
            return out
        for path in m.each(entry, (2000 if what == "interleave" else 200) if tier == "thorough" else {"interleave": 400, "keys": 4, "cache": 4}[what]):
            n["traces"] += 1
            if path.kind == "return" and path.value is not None:
                n[f"{what} {name}"] += 1
                res += [(*r, trace_of(path)) for r in path.value]
            elif path.kind == "raise":
                raise path.value
        return n, res
    jobs = []
    for name in NESTED:
        for shape in ((3, 4), ()):
            c = (name, {}, shape, 0)
            jobs += [(c, "keys"), (c, "interleave")]
    done = set()
    for c in cases:
        jobs.append((c, "cache"))
        if tier == "thorough" or simple(c[1]):
            jobs.append((c, "keys"))
        special = {k: v for k, v in c[1].items() if k not in ("maxiter", "seed")}
        if tier == "thorough" or simple(c[1]) and c[2] and (c[0], tuple(special)) not in done and all(v is TENSOR or v is True or type(v) is float and v == 0.25 for v in special.values()) and (not special or len(m.spec(mm[c[0]]).options) < 4):
            done.add((c[0], tuple(special)))
            jobs.append((c, "interleave"))
    counts, bad = sweep(m, jobs, judge, 160)
    names = {k.split(" ", 1)[1] for k in counts if k.split(" ")[0] in ("keys", "interleave", "cache")}
    rep.unit(*names)
    for k in RULES:
        rep.obligation(k, counts["ok " + k])
    for r in bad:
        rep.violation(r[0], r[2], r[3], r[4], r[5])
    rep.floor("merge methods and recipes", len(names), 30)
    rep.floor("methods interleaved", len([k for k in counts if k.startswith("interleave ")]), 30)
    rep.floor("preempted merges", counts["interleaved"], 1500)
    rep.floor("cache entries", counts["cached"], 20)
    rep.floor("merges with a cache of other options", counts["refilled"], 20)


def brief(x):
    return (terms.show(x.expr) if isinstance(x, TT) else repr(x))[:200]


def show_options(o):
    return ", ".join(f"{k}={'tensor' if v is TENSOR else v}" for k, v in sorted(o.items())) or "the defaults"
