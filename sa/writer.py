"""Symbolic histories of a streamed safetensors output, and the oracle for the finished file."""
from . import models, terms
from .common import *
from .iomodel import IO, ATensor, ABytes, le, eqv, tr

OUT = "/out/model.safetensors"
NAMES = {"float64": "F64", "float32": "F32", "float16": "F16", "bfloat16": "BF16", "int64": "I64", "int32": "I32",
         "int16": "I16", "int8": "I8", "uint8": "U8", "uint16": "U16", "uint32": "U32", "uint64": "U64", "bool": "BOOL",
         "float8_e4m3fn": "F8_E4M3", "float8_e5m2": "F8_E5M2"}          # the safetensors specification


class Writer:
    nonempty = False

    def __init__(self, rep):
        self.rep = rep
        self.prog = program(IO)
        self.io = self.prog.io
        self.cls = anchor(self.prog, "sd_mecha.streaming.OutSafetensorsDict")
        self.meta = anchor(self.prog, "sd_mecha.streaming.TensorMetadata")

    def open(self, header=None, recipe=None):
        self.io.fresh()
        B = self.B = self.io.lin.sym("buffer_size")
        if self.nonempty:
            self.io.lin.extra.append(terms.poly(B - 1))
        self.out = self.prog.call(self.cls, (APath(OUT), header or {}, recipe, B), {})
        self.tensors = {}
        self.prog.impl_objects = [self.out]
        return self.out

    def tensor(self, key, dtype="float32", **k):
        n = self.io.lin.sym(f"numel_{key}")
        if self.nonempty:
            self.io.lin.extra.append(terms.poly(n - 1))
        d = dict(contiguous=True, cpu=True)
        d.update(k)
        t = ATensor(key, n, models.DTYPES[dtype], models.Size((n,)), content=("tensor", key), **d)
        return t

    def store(self, key, t, thread=0):
        self.tensors[key] = t
        old, self.prog.thread = self.prog.thread, self.io.threads[thread]
        try:
            self.prog.setitem(self.out, key, t)
        finally:
            self.prog.thread = old

    def close(self):
        self.prog.call(self.prog.getattr(self.out, "close"), (), {})

    # ---- the finished file -----------------------------------------------------
    def layout(self):
        """(problem or None, data start, index, text of layout)"""
        segs = self.io.fs.files[OUT].segs
        if not segs or segs[0][1][0] != "u64" or segs[0][0] != 8:
            return "the file does not start with the 8-byte index length", None, None
        N = segs[0][1][1]
        if len(segs) < 2 or segs[1][1][0] != "text" or not is_term(segs[1][1][1]) or segs[1][1][1]._op != "jsontext":
            return "the index does not follow the index length", None, None
        index = self.io.fs.jsons[segs[1][1][1]._args[0]]
        end, i = 8 + segs[1][0], 2
        while i < len(segs) and segs[i][1][0] == "rep" and segs[i][1][1] in (b" ", " "):
            end, i = end + segs[i][0], i + 1
        if not self.io.lin.equal(end, 8 + N):
            return f"the index length field says {show(N)}, but the index with its padding takes {show(end - 8)} bytes", None, None
        return None, 8 + N, index

    def data_problems(self, start, index):
        out = []
        f = self.io.fs.files[OUT]
        total = 0
        for key, t in self.tensors.items():
            e = index.get(key)
            if e is None:
                out.append(f"key '{key}' is missing from the index")
                continue
            offs = e.get("data_offsets")
            if not offs or len(offs) != 2:
                out.append(f"no byte range for '{key}'")
                continue
            lo, hi = offs
            want = t.nbytes
            total = total + want
            if not self.io.lin.equal(hi - lo, want):
                out.append(f"the byte range of '{key}' has length {show(hi - lo)}, its data has {show(want)}")
                continue
            if self.io.lin.equal(want, 0) or eqv(want, 0):
                continue
            try:
                segs = f.cut(start + lo, start + hi)
            except EngineError:
                segs = None
            if segs is None or len(segs) != 1 or segs[0][1] != t.content:
                what = ", ".join(f"{show(n)} bytes of {c}" for n, c in segs or [])
                out.append(f"the byte range of '{key}' [{show(lo)}, {show(hi)}) holds {what or 'nothing'}")
        extra = set(index) - set(self.tensors) - {"__metadata__"}
        if extra:
            out.append(f"the index lists keys that were not stored: {sorted(map(str, extra))}")
        if not out and not self.io.lin.equal(f.alen - start, total):
            out.append(f"the data section has {show(f.alen - start)} bytes, the stored tensors {show(total)}")
        return out

    def entry_problems(self, index):
        out = []
        for key, t in self.tensors.items():
            e = index.get(key)
            if e is None:
                continue
            if e.get("dtype") != NAMES[t.dtype.name]:
                out.append(f"'{key}' has dtype {t.dtype.name} but is indexed as {e.get('dtype')!r}")
            sh = e.get("shape")
            if not isinstance(sh, (list, tuple)) or list(map(terms._key, sh)) != list(map(terms._key, t.shape)):
                out.append(f"'{key}' has shape {show(tuple(t.shape))} but is indexed as {show(sh)}")
        return out
