from ..methodlib import *

LEVEL = "other"
RULES = {
    "accepted": "merging with a registered merge method and documented option values raises no error, whatever the shape of the tensors",
    "shape": "the merged tensor has the shape of the tensors merged",
    "kept": "no key of the inputs is lost",
}
EXPLANATION = ("Abstract interpretation of whole merges with every registered merge method of tensors, every value and pair of values of its options, shapes from scalars to convolutions with all the degenerate "
               "dimensions, with shape arithmetic for every torch operation on the way; options that take a tensor are given as numbers and as tensors of another model.")
ASSUMPTIONS = ["all models of one merge have the same shape for a key; numeric failures inside a torch or numpy kernel (a decomposition that does not converge) are out of scope"]


def check(rep, tier):
    m = methods()
    p = m.prog
    cases = []
    for name, o, shape, n in m.cases(tier):
        cases.append((name, o, shape, n))
        if n and shape in ((3, 4), ()) and len(o) < 3:
            cases += [(name, o, shape, k) for k in (1, 2, 5) if name != "model_stock" and not o.get("apply_stock") or k > 1]

    def judge(case):
        name, _, shape, _ = case
        res, n = [], collections.Counter()

        def entry():
            args, kw, held = m.inputs(case, ("k", "l"))
            return dict(m.merge(m.node(name, args, kw)))
        for path in m.each(entry, 120 if tier == "thorough" else 24):
            n["traces"] += 1
            n[f"method {name}"] += 1
            e = path.value if path.kind == "raise" else None
            res.append(("accepted", e is None, name, "sd_mecha/extensions/builtin/merge_methods", f"{told(case)}: {e!r}", trace_of(path)))
            if e is None:
                res.append(("kept", set(path.value) == {"k", "l"}, name, "sd_mecha/extensions/builtin/merge_methods", f"{told(case)}: only {sorted(path.value)} are merged", trace_of(path)))
                for k, v in path.value.items():
                    if isinstance(v, TT):
                        res.append(("shape", tuple(v.shape) == tuple(shape), name, "sd_mecha/extensions/builtin/merge_methods", f"{told(case)}: the result has shape {tuple(v.shape)}", trace_of(path)))
        return n, res
    counts, bad = sweep(m, cases, judge)
    names = {k[7:] for k in counts if k.startswith("method ")}
    rep.unit(*names)
    for k in RULES:
        rep.obligation(k, counts["ok " + k])
    for r in bad:
        rep.violation(r[0], r[2], r[3], r[4], r[5])
    rep.floor("merge methods", len(names), 28)
    rep.floor("shapes checked", counts["ok shape"] + len(bad), 3000)
