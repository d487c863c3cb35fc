from ..reader import *
from ..writer import Writer, OUT

LEVEL = "other"
RULES = {
    "truncated": "a tensor is handed out only when all its bytes are in the file",
    "header": "a file whose index is incomplete is rejected",
    "write": "when a write or seek of the output fails, storing or closing raises",
    "partial": "no byte of a stored tensor is lost because a write was partial",
}
EXPLANATION = ("Abstract interpretation of reading from an InSafetensorsDict whose file ends at an unknown place (inside the index, inside the data), and "
               "of storing into and closing an OutSafetensorsDict whose file operations may fail; unbuffered files transfer an unknown number of "
               "bytes. Every trace that returns a tensor or a finished file is compared with the symbolic file.")
ASSUMPTIONS = ["buffered file objects complete writes or raise (Python's contract for BufferedWriter)",
               "histories of two reads or two stores (sizes, buffer sizes, index lengths and the end of the file are unbounded)"]


def reading(reads):
    r = Reader()

    def entry():
        r.file(sorted(set(reads)), complete=False, nonempty=True)
        r.open()
        got = []
        for k in reads:
            try:
                got.append((k, r.get(k)))
            except Exception:
                pass
        return [m for k, t in got for m in r.problems(k, t)], len(got)
    n, bad, full = 0, [], 0
    sweep = Sweep(r.prog, entry, bad)
    for path in sweep:
        if path.kind == "cut" or path.kind == "raise":
            continue
        n += 1
        full += path.value[1] == len(reads)
        bad += [("truncated", m, trace_of(path)) for m in path.value[0]]
    return n, bad, full, sorted(f for f in r.prog.functions_seen if "streaming" in f), sweep.truncated


def header():
    r = Reader()

    def entry():
        r.file(["a"], complete=False, nonempty=True, header_complete=False)
        r.open()
        return list(r.prog.iterate(r.prog.call(r.prog.getattr(r.obj, "keys"), (), {})))
    n, bad, raised = 0, [], 0
    for path in Sweep(r.prog, entry, bad):
        if path.kind == "cut":
            continue
        n += 1
        if path.kind == "return":
            bad.append(("header", "a file whose index is cut short is opened without an error", trace_of(path)))
        else:
            raised += 1
    return n, bad, raised, sorted(f for f in r.prog.functions_seen if "streaming" in f), False


def writing(steps, faults):
    w = Writer(None)
    w.nonempty = True
    w.io.index_fits = True

    def entry():
        w.open()
        w.io.fs.faults = faults
        for key in steps:
            w.store(key, w.tensor(key))
        w.close()
        prob, start, index = w.layout()
        return prob, [] if prob else w.data_problems(start, index)
    n, bad, failed = 0, [], 0
    sweep = Sweep(w.prog, entry, bad)
    for path in sweep:
        if path.kind == "cut":
            continue
        n += 1
        broke = [c for c, v in path.choices if v and c.endswith("fails'")]
        if broke:
            failed += 1
            if path.kind == "return":
                bad.append(("write", f"{broke[0]} while saving, and saving returns normally", trace_of(path)))
        elif path.kind == "raise":
            bad.append(("partial", f"saving raises {path.value!r} although no operation failed", trace_of(path)))
        else:
            if path.value[0]:
                bad.append(("partial", path.value[0], trace_of(path)))
            bad += [("partial", m, trace_of(path)) for m in path.value[1]]
    return n, bad, failed, sorted(f for f in w.prog.functions_seen if "streaming" in f), sweep.truncated


def check(rep, tier):
    tasks = {"reading two keys of a truncated file": lambda: reading("ab"),
             "reading one key of a truncated file twice": lambda: reading("aa"),
             "opening a file with a cut index": header,
             "storing with failing writes": lambda: writing("ab", ("write", "seek")),
             "storing": lambda: writing("abc", ())}
    total = 0
    for (label, _), (n, bad, special, fns, cut) in zip(tasks.items(), parallel(list(tasks.values()))):
        total += n
        rule = "truncated" if "truncated" in label else "header" if "index" in label else "write" if "failing" in label else "partial"
        rep.obligation(rule, n, sample=f"{label}: {n} traces ({special} complete/raising)")
        rep.unit(*fns)
        if cut:
            rep.assume(f"'{label}': only the first {n} traces were analysed (budget)")
        for rule, m, trace in bad:
            rep.violation(rule, ("OutSafetensorsDict: " if "storing" in label else "InSafetensorsDict: ") + label, "sd_mecha/streaming.py", m, trace)
        if label != "storing":
            rep.floor(f"'{label}': traces of interest", special, 1)
    rep.floor("traces", total, 30)
