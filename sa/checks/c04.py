from ..writer import *

LEVEL = "other"
RULES = {
    "layout": "the length field, the index with its padding and the start of the data section agree",
    "data": "the data section is intact after the index was written, also when it had to be moved",
    "metadata": "the __metadata__ entry of the index maps strings to strings",
}
EXPLANATION = ("Abstract interpretation of constructing, storing into and closing an OutSafetensorsDict with symbolic lengths of the reserved and the "
               "final index, symbolic tensor sizes and buffer size, including the relocation of the data section; the finished symbolic file is "
               "parsed back segment by segment.")
ASSUMPTIONS = ["struct.pack, seek, truncate and buffered writes do what they document",
               "up to three chunks of relocation are unrolled; up to two tensors (all sizes are unbounded)"]


def run(steps, header_kind, recipe):
    w = Writer(None)
    w.nonempty = True

    def entry():
        header = {}
        if header_kind == "declared":
            header = {k: w.prog.call(w.meta, (models.Size((w.io.lin.sym(f"dim_{k}"),)), models.DTYPES["float16"]), {}) for k in ("a", "declared_only")}
            header["unknown"] = w.prog.call(w.meta, (None, None), {})
        w.open(header, recipe)
        for key, th in steps:
            w.store(key, w.tensor(key), th)
        w.close()
        prob, start, index = w.layout()
        return prob, (w.data_problems(start, index) if not prob else []), (index or {}).get("__metadata__")

    n, bad, moved = 0, [], 0
    sweep = Sweep(w.prog, entry, bad)
    for path in sweep:
        if path.kind == "cut":
            continue
        n += 1
        if any(e.kind == "file" and e.d["op"] == "read" for e in path.events):
            moved += 1
        if path.kind == "raise":
            bad.append(("layout", f"closing raises {path.value!r}", trace_of(path)))
            continue
        prob, data, meta = path.value
        if prob:
            bad.append(("layout", prob, trace_of(path)))
        bad += [("data", m, trace_of(path)) for m in data]
        if meta is not None and not (isinstance(meta, dict) and all(isinstance(k, str) and (isinstance(v, str) or is_term(v) and v._ty is str) for k, v in meta.items())):
            bad.append(("metadata", f"__metadata__ is {meta!r}", []))
        if recipe is not None and not any(v is recipe for v in (meta or {}).values()):
            bad.append(("metadata", "the recipe text is not in the metadata of the file", []))
    return n, bad, moved, sorted(f for f in w.prog.functions_seen if "streaming" in f), sweep.truncated


def check(rep, tier):
    text = Term("sym", "recipe_text", ty=str)
    hist = {"one tensor": ([("a", 0)], "empty", None),
            "no tensor": ([], "declared", text),
            "one tensor of declared keys": ([("a", 0)], "declared", text),
            "two tensors of two threads": ([("a", 0), ("b", 1)], "empty", None)}
    if tier == "thorough":
        hist["two tensors of one thread"] = ([("a", 0), ("b", 0)], "empty", None)
    total = allmoved = 0
    for (label, _), (n, bad, moved, fns, cut) in zip(hist.items(), parallel([lambda a=a: run(*a) for a in hist.values()])):
        total, allmoved = total + n, allmoved + moved
        rep.obligation("layout", n, sample=f"{label}: {n} traces, {moved} with a moved data section")
        rep.obligation("data", n)
        rep.obligation("metadata", n)
        rep.unit(*fns)
        if cut:
            rep.assume(f"'{label}': only the first {n} traces were analysed (budget)")
        for rule, m, trace in bad:
            rep.violation(rule, f"OutSafetensorsDict.close: {label}", "sd_mecha/streaming.py", m, trace)
    rep.floor("traces ending in a finished file", total, 20)
