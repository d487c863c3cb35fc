from ..methodlib import *

LEVEL = "other"
RULES = {
    "forms": "no path of a merge method uses a parameter in another form than the one it declares (a type, attribute, key, name or assertion error)",
}
EXPLANATION = ("Abstract interpretation of whole merges with every registered merge method of tensors, every value and pair of values of its options, several shapes and numbers of models, with and without cache; the "
               "arguments have exactly the operations of the declared form (tensor, state dict, python value), so that every other use is an error on some path. Methods whose result depends on keys or components are "
               "run on all shipped configs they know and on a small one.")
ASSUMPTIONS = ["the operations of tensors are those of the torch names listed in sa/torch_names.json"]
FORM_ERRORS = (TypeError, AttributeError, KeyError, NameError, AssertionError, NotImplementedError)


def check(rep, tier):
    m = methods()
    p = m.prog
    cases = m.cases(tier)

    def judge(case):
        name = case[0]
        res, n = [], collections.Counter()

        def entry():
            args, kw, held = m.inputs(case)
            node = m.node(name, args, kw)
            if cached:
                p.call(p.getattr(node, "set_cache"), (), {})
                m.merge(node)
            return dict(m.merge(node))
        for cached in (False, True):
            for path in m.each(entry, 120 if tier == "thorough" else 24):
                n["traces"] += 1
                n[f"method {name}"] += 1
                e = path.value if path.kind == "raise" else None
                ok = not isinstance(e, FORM_ERRORS) or isinstance(e, m.w.missing)
                res.append(("forms", ok, name, where(e), f"{told(case)}{' with a cache' if cached else ''}: {e!r}", trace_of(path)))
        return n, res

    def where(e):
        return getattr(e, "at", "") or "sd_mecha/extensions/builtin/merge_methods"
    counts, bad = sweep(m, cases, judge)

    # methods working on keys
    mc = m.w.mc
    configs = {p.getattr(c, "identifier"): c for c in p.call(p.getattr(mc, "get_all"), (), {})}
    small = m.w.config(None, "arch-impl", {"one": {"k": ((), False)}, "two": {"l": ((), False)}})
    jobs = [("exchange_ema", c, None) for c in [small] + [configs[i] for i in sorted(configs) if i in ("sd1-ldm", "sdxl-sgm", "sd3-sgm")]]
    jobs += [("fallback", small, None)] + [(x, small, c) for x in ("pick_component", "omit_component") for c in ("one", "two")]
    jobs += [(x, small, None) for x in ("get_dtype", "get_device")]

    def keyed(name, config, component):
        out = []

        def entry():
            keys = list(p.call(p.getattr(config, "keys"), (), {}))
            ts = {k: m.lib.input(k, (2,)) for k in keys}
            lit = p.call(m.w.literal, (ts, config, "weight"), {})
            args = [lit] + ([component] if component else []) + ([lit] if name == "fallback" else [])
            node = m.node(name, args, {})
            if name in ("get_dtype", "get_device"):
                # usable as a python value
                node = m.node("cast", [lit], {name[4:]: node})
            return len(m.merge(node))
        for path in m.each(entry, 8):
            e = path.value if path.kind == "raise" else None
            out.append(("forms", not isinstance(e, FORM_ERRORS), name, "", f"{name} on {p.getattr(config, 'identifier')}: {e!r}", trace_of(path), 0 if e else path.value))
        return out
    done = collections.Counter()
    for rs in parallel([lambda j=j: keyed(*j) for j in jobs]):
        for r in rs:
            done[r[2]] += r[6]
            if r[1]:
                counts["ok forms"] += 1
            else:
                bad.append(r[:6])
    names = {k[7:] for k in counts if k.startswith("method ")} | set(done)
    rep.unit(*names)
    rep.obligation("forms", counts["ok forms"])
    for r in bad:
        rep.violation(r[0], r[2], r[3], r[4], r[5])
    rep.floor("merge methods", len(names), 34)
    rep.floor("traces", counts["traces"], 2500)
    rep.floor("keys through methods working on keys", sum(done.values()), 1000)
