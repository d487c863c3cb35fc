from ..methodlib import *

LEVEL = "other"
RULES = {
    "inputs": "no tensor or dictionary handed to a merge method is written to",
    "cache": "no value stored in a cache is written to",
    "results": "a result is not written to after it was returned",
}
EXPLANATION = ("Abstract interpretation of whole merges with every registered merge method of tensors, every value and every pair of values of its options, several shapes, without cache, with an empty one and "
               "with the one of an earlier merge. Tensors are views of storages; every write is an event on the storage, so that views, reshapes and casts that may share memory are followed through helpers.")
ASSUMPTIONS = ["torch operations write to the memory of their operands only when they are in-place operations, item assignments or given `out`; reshape, flatten, to, contiguous and expand may return their operand"]


def check(rep, tier):
    m = methods()
    p, lib = m.prog, m.lib
    cases = m.cases(tier)

    def judge(case):
        name = case[0]
        res, n = [], collections.Counter()

        def entry():
            args, kw, held = m.inputs(case)
            inputs = {id(t.root): (x, k, t.root) for x, ts in held.items() for k, t in ts.items()}
            dicts = [(x, ts, dict(ts)) for x, ts in held.items()]
            cache = {}
            stored = {}
            out = []

            def look(tag, got):
                for e in lib.events:
                    if e["kind"] != "write":
                        continue
                    for r in e["roots"]:
                        if id(r) in inputs or r.origin == "input":
                            out.append(("inputs", False, f"{name} at {e['at']}", e["at"], f"{told(case)}{tag}: the tensor {r.name} of an input is modified"))
                        if id(r) in stored:
                            out.append(("cache", False, f"{name} at {e['at']}", e["at"], f"{told(case)}{tag}: the value {stored[id(r)]} of the cache is modified"))
                for x, ts, was in dicts:
                    if ts.keys() != was.keys() or any(ts[k] is not was[k] for k in was):
                        out.append(("inputs", False, f"{name}: dictionary {x}", "", f"{told(case)}{tag}: the dictionary of the input {x} is modified"))
                lib.events.clear()

            def remember(d, path=""):
                for k, v in dict(d).items():
                    if isinstance(v, dict):
                        remember(v, f"{path}/{k}")
                    elif isinstance(v, TT):
                        for r in v.root.all():
                            stored.setdefault(id(r), f"{path}/{k}")
                            keep.append(r)
            keep = []
            done = {}
            for tag, c in (("", None), (" with an empty cache", cache), (" with the cache of an earlier merge", cache)):
                node = m.node(name, args, kw)
                if c is not None:
                    p.call(p.getattr(node, "set_cache"), (c,), {})
                got = m.merge(node)
                look(tag, got)
                for k, t in dict(got).items():
                    if isinstance(t, TT):
                        done[tag, k] = (t.root, t.root.writes)
                remember(cache)
            for (tag, k), (r, w) in done.items():
                out.append(("results", r.writes == w, f"{name}: result", "", f"{told(case)}{tag}: the result for {k} is modified by a later merge"))
            return out
        for path in m.each(entry, 200 if tier == 'thorough' else 24):
            n["traces"] += 1
            if path.kind == "return":
                n["merges"] += 3
                n[f"method {name}"] += 1
                if not any(not r[1] for r in path.value):
                    res += [("inputs", True, name, "", ""), ("cache", True, name, "", "")]
                res += [(*r, trace_of(path)) for r in path.value]
            else:
                n["failed"] += 1
        return n, res
    counts, bad = sweep(m, cases, judge)
    names = {k[7:] for k in counts if k.startswith("method ")}
    rep.unit(*names)
    for k in RULES:
        rep.obligation(k, counts["ok " + k])
    for r in bad:
        rep.violation(r[0], r[2], r[3], r[4], r[5] if len(r) > 5 else ())
    rep.floor("merge methods", len(names), 28)
    rep.floor("completed merges", counts["merges"], 3000)
