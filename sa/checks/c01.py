from ..writer import *

LEVEL = "other"
RULES = {
    "range": "at close, the byte range indexed for a key holds exactly the bytes stored for that key",
    "entry": "the index gives the dtype and shape of the stored tensor",
}
EXPLANATION = ("Abstract interpretation of OutSafetensorsDict's constructor, item store and close over symbolic histories: sizes, buffer size and "
               "index lengths are symbolic integers, files and buffers are sequences of symbolic segments, comparisons split the trace, and in the "
               "two-thread histories another thread's whole store is interleaved at every file operation, lock operation and shared-state write of a "
               "store. On every trace, the finished symbolic file is compared with the index.")
ASSUMPTIONS = ["a lock is mutually exclusive; a buffered file writes everything or raises; dict updates are atomic",
               "histories of up to four stores by two threads, one preemption per store (sizes, buffer sizes and index lengths are unbounded)",
               "the finished index is no longer than the reserved one (C04 analyses the other case)"]


def run(steps, preempt=None, fit=(), nonempty=True):
    w = Writer(None)
    w.nonempty, w.io.index_fits = nonempty, True

    def entry():
        w.open()
        for i, (key, th) in enumerate(steps):
            t = w.tensor(key)
            if key in fit:
                w.io.lin.extra.append(terms.poly(w.B - t.nbytes))
            if preempt is not None and preempt[0] == i:
                k2, th2 = preempt[1]
                t2 = w.tensor(k2)
                w.tensors[k2] = t2
                w.io.preempt_with(lambda: w.prog.setitem(w.out, k2, t2), lambda: w.store(key, t, th))
                if w.io.fired is None:
                    raise PathEnd("no preemption")
            else:
                w.store(key, t, th)
        w.close()
        prob, start, index = w.layout()
        if prob:
            raise PathEnd("layout")         # decided by C04
        return w.data_problems(start, index), w.entry_problems(index), w.io.fired

    n, bad, sites = 0, [], set()
    sweep = Sweep(w.prog, entry, bad)
    for path in sweep:
        if path.kind == "cut":
            continue
        n += 1
        if path.kind == "raise":
            bad.append(("range", f"storing or closing raises {path.value!r}", trace_of(path)))
            continue
        data, entries, fired = path.value
        site = f", preempted at {fired}" if fired else ""
        sites.add(fired)
        bad += [("range", m + site, trace_of(path)) for m in data] + [("entry", m, trace_of(path)) for m in entries]
    return n, bad, sorted(s for s in sites if s), sorted(f for f in w.prog.functions_seen if "streaming" in f), sweep.truncated


def check(rep, tier):
    hist = {"one thread": ([("a", 0), ("b", 0), ("c", 0)],),
            "one thread, possibly empty tensors and buffer": ([("a", 0), ("b", 0)], None, (), False),
            "two threads, alternating": ([("a", 0), ("b", 1), ("c", 0), ("d", 1)],),
            "store preempted by the first store of another thread": ([("a", 0), ("b", 0)], (1, ("x", 1))),
            "store preempted by a flushing store of another thread": ([("w", 1), ("a", 0), ("b", 0)], (2, ("x", 1)), ("w", "a")),
            "first store preempted by the first store of another thread": ([("a", 0), ("b", 0)], (0, ("x", 1)), ("a",))}
    if tier == "thorough":
        hist["store preempted by a flushing store of another thread, any sizes"] = ([("w", 1), ("a", 0), ("c", 0)], (2, ("x", 1)))
        hist["one thread, four stores"] = ([(k, 0) for k in "abcd"],)
    results = parallel([lambda a=a: run(*a) for a in hist.values()])
    total = nsites = 0
    for (label, a), (n, bad, sites, fns, cut) in zip(hist.items(), results):
        total += n
        nsites += len(sites)
        rep.obligation("range", n, sample=f"{label}: {n} traces")
        rep.obligation("entry", n)
        rep.unit(*fns)
        if cut:
            rep.assume(f"'{label}': only the first {n} traces were analysed (budget)")
        for rule, m, trace in bad:
            rep.violation(rule, f"OutSafetensorsDict.__setitem__/close: {label}", "sd_mecha/streaming.py", m, trace)
        if len(a) > 1 and a[1]:
            rep.floor(f"preemption points in '{label}'", len(sites), 1)
    rep.floor("traces ending in a finished file", total, 60)
