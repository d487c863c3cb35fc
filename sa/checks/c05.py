from ..reader import *

LEVEL = "other"
RULES = {
    "content": "a returned tensor holds, until the end of the history, exactly the data bytes its index entry names",
    "succeeds": "reading a key of a complete file does not raise unless a file operation failed",
}
EXPLANATION = ("Abstract interpretation of opening and reading an InSafetensorsDict over symbolic histories: the file is a sequence of symbolic "
               "segments, offsets, sizes and the buffer size are symbolic integers, comparisons split the trace; a second thread's whole read is "
               "interleaved at every file, lock and buffer operation and every access to the mapping's attributes, and every file operation of a "
               "read may fail. Tensors alias the buffer they were made from; their bytes are compared with the file at the end of the history.")
ASSUMPTIONS = ["a lock is mutually exclusive; torch.frombuffer aliases its buffer",
               "histories of up to three reads by two threads with one preemption (offsets, sizes, index length and buffer size are unbounded)"]


def run(reads, preempt=None, faults=False, nonempty=True, dtype="F16", order=None):
    """reads: [(key, thread)]; preempt: (position, key) read by thread 1 in the middle; faults: the file operations of one read may fail"""
    r = Reader()
    r.prog.watch_attr = lambda obj, name: obj is getattr(r, "obj", None)

    def entry():
        r.obj = None
        r.file(order or sorted({k for k, _ in reads} | ({preempt[1]} if preempt else set())), dtype=dtype, nonempty=nonempty, order=bool(order))
        r.open()
        got, failed = [], []
        for i, (k, th) in enumerate(reads):
            try:
                if preempt and preempt[0] == i:
                    other = preempt[1]
                    r.io.preempt_with(lambda: got.append((other, r.prog.subscript(r.obj, other))), lambda: got.append((k, r.get(k, th))))
                    if r.io.fired is None:
                        raise PathEnd("no preemption")
                else:
                    if faults and i == faults:
                        r.io.fs.faults = ("read", "seek")
                    got.append((k, r.get(k, th)))
            except OSError as e:
                if not r.io.fs.faults:
                    raise
                failed.append(k)
            finally:
                r.io.fs.faults = ()
        r.prog.call(r.prog.getattr(r.obj, "close"), (), {})
        return [m for k, t in got for m in r.problems(k, t)], r.io.fired, bool(failed)

    n, bad, sites, nfail = 0, [], set(), 0
    sweep = Sweep(r.prog, entry, bad)
    for path in sweep:
        if path.kind == "cut":
            continue
        n += 1
        if path.kind == "raise":
            if isinstance(path.value, (EOFError, OSError)) and any(c == "'short transfer'" and v for c, v in path.choices):
                continue
            bad.append(("succeeds", f"reading raises {path.value!r}", trace_of(path)))
            continue
        probs, fired, failed = path.value
        sites.add(fired)
        nfail += failed
        bad += [("content", m + (f", preempted at {fired}" if fired else ""), trace_of(path)) for m in probs]
    return n, bad, len([s for s in sites if s]), nfail, sorted(f for f in r.prog.functions_seen if "streaming" in f), sweep.truncated


def check(rep, tier):
    hist = {"one thread": ([("a", 0), ("b", 0), ("c", 0)],),
            "one thread, possibly empty tensors": ([("a", 0), ("b", 0)], None, False, False),
            "same key again": ([("a", 0), ("b", 0), ("a", 0)],),
            "read preempted by another thread's later key": ([("a", 0), ("b", 0)], (1, "c"), False, True, "F16", "abc"),
            "read preempted by another thread's earlier key": ([("a", 0), ("c", 0)], (1, "b"), False, True, "F16", "abc"),
            "first read preempted by another thread": ([("a", 0)], (0, "b"), False, True, "F16", "ba"),
            "read after a failed read": ([("a", 0), ("b", 0), ("c", 0)], None, 1)}
    for d in sorted(set(NAMES.values())):
        hist[f"one read of {d}"] = ([("a", 0)], None, False, False, d)
    if tier == "thorough":
        hist["read preempted by another thread"] = ([("a", 0), ("b", 0)], (1, "c"))
        hist["three reads, the last preempted"] = ([("a", 0), ("b", 1)], (1, "a"))
        hist["one thread, four reads"] = ([(k, 0) for k in "abcd"],)
    results = parallel([lambda a=a: run(*a) for a in hist.values()])
    total = fails = 0
    for (label, a), (n, bad, sites, nfail, fns, cut) in zip(hist.items(), results):
        total, fails = total + n, fails + nfail
        rep.obligation("content", n, sample=f"{label}: {n} traces, {sites} preemption points, {nfail} with a failed read")
        rep.obligation("succeeds", n)
        rep.unit(*fns)
        if cut:
            rep.assume(f"'{label}': only the first {n} traces were analysed (budget)")
        for rule, m, trace in bad:
            rep.violation(rule, f"InSafetensorsDict.__getitem__: {label}", "sd_mecha/streaming.py", m, trace)
        if len(a) > 1 and a[1]:
            rep.floor(f"preemption points in '{label}'", sites, 1)
    rep.floor("histories with a failed read", fails, 1)
    rep.floor("traces", total, 60)
