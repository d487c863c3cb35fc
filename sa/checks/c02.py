from ..writer import *

LEVEL = "other"
RULES = {
    "bytes": "the bytes written for a tensor are its elements in row-major order in its own dtype",
    "unmodified": "storing a tensor does not modify it",
}
EXPLANATION = ("Abstract interpretation of storing one tensor and closing the output, for every dtype, with unknown memory layout, unknown device, "
               "a possible storage offset and a symbolic (possibly zero) number of elements. Raw memory reads are tracked by a typestate (cpu and "
               "contiguous memory, in extent, owner alive) and the segment of the file indexed for the key must be the tensor's elements.")
ASSUMPTIONS = ["torch's cpu(), contiguous() and to() return what they document; the host is little-endian or numpy's byteswap is right"]


def check(rep, tier):
    w = Writer(rep)
    w.io.index_fits = True
    n = 0
    for name in NAMES:
        if name not in models.DTYPES:
            continue
        for shape in ("vector", "matrix", "scalar"):
            def entry():
                w.open()
                layout = {0: dict(contiguous=True, cpu=True), 1: dict(contiguous=False, cpu=True),
                          2: dict(contiguous=True, cpu=False), 3: dict(contiguous=False, cpu=False)}
                kind = w.prog.choose(None, 4, "layout")
                t = w.tensor("k", name, **layout[kind])
                if shape == "matrix":
                    r, c = w.io.lin.sym("rows"), w.io.lin.sym("cols")
                    t = t.like(numel=r * c, shape=models.Size((r, c)))
                elif shape == "scalar":
                    t = t.like(numel=1, shape=models.Size(()))
                w.store("k", t)
                w.close()
                prob, start, index = w.layout()
                if prob:
                    raise PathEnd("layout")
                return kind, w.data_problems(start, index)
            for path in w.prog.explore(entry, max_paths=4000):
                if path.kind == "cut":
                    continue
                n += 1
                rep.obligation("bytes", sample=f"{name} {shape}: {path.choices[:4]}")
                rep.obligation("unmodified")
                where = next((e.loc for e in path.events if e.kind == "tensor_mutated"), None)
                if where:
                    rep.violation("unmodified", "storing a tensor", where, "a tensor handed to the output is modified in place", trace_of(path))
                if path.kind == "raise":
                    rep.violation("bytes", f"storing a tensor raises {type(path.value).__name__}", "sd_mecha/streaming.py",
                                  f"dtype {name}: {path.value!r}", trace_of(path))
                    continue
                for m in path.value[1]:
                    kinds = ["contiguous cpu", "non-contiguous cpu", "contiguous accelerator", "non-contiguous accelerator"]
                    rep.violation("bytes", f"storing a {kinds[path.value[0]]} tensor", "sd_mecha/streaming.py", f"dtype {name}: {m}", trace_of(path))
    rep.unit(*sorted(f for f in w.prog.functions_seen if "streaming" in f))
    rep.floor("traces ending in a finished file", n, 100)
