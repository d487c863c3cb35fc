"""Symbolic histories of a safetensors input, and the oracle for the tensors it hands out."""
import json
from . import models, terms
from .common import *
from .iomodel import IO, AFile, ABuffer, ABytes, ATensor, le, eqv, tr
from .writer import NAMES

SRC = "/in/model.safetensors"


class Reader:
    def __init__(self):
        self.prog = program(IO)
        self.io = self.prog.io
        self.cls = anchor(self.prog, "sd_mecha.streaming.InSafetensorsDict")
        self.prog.term_models["warnings.catch_warnings"] = lambda p, a, k: Term("ctx", "catch_warnings")

    def file(self, keys, complete=True, dtype="F16", header_complete=True, nonempty=False, order=False):
        """keys: names; a file whose index puts each key at an unknown place; when `complete` every range lies in the file"""
        io, lin = self.io, self.io.lin
        io.fresh()
        N, D = lin.sym("index_length"), lin.sym("data_length")
        lin.extra.append(terms.poly(N - 2))
        self.N, self.D, self.ranges, self.dtype = N, D, {}, dtype
        size = next(models.DTYPES[d].itemsize for d, s in NAMES.items() if s == dtype)
        header = {"__metadata__": {"format": "pt"}}
        for k in keys:
            lo, n = lin.sym(f"start_{k}"), lin.sym(f"numel_{k}")
            hi = lo + n * size
            header[k] = {"dtype": dtype, "shape": [n], "data_offsets": [lo, hi]}
            self.ranges[k] = (lo, hi, n)
            if nonempty:
                lin.extra.append(terms.poly(n - 1))
            if complete:
                lin.extra.append(terms.poly(D - hi))
        B = lin.sym("buffer_size")
        if nonempty:
            lin.extra.append(terms.poly(B - 1))
        for x, y in zip(keys, keys[1:]) if order else ():
            lin.extra.append(terms.poly(self.ranges[y][0] - self.ranges[x][1]))
        whole = Term("sym", "index_text", ty=str)
        buf = ABuffer([(8, ("u64", N)), (N, ("text", whole)), (D, ("file", "data", 0))])
        if not header_complete:
            L = lin.sym("file_length")
            lin.extra.append(terms.poly(8 + N - 1 - L))
            buf = ABuffer(buf.cut(0, L))
        io.fs.files[SRC] = buf

        def parse(t):
            if t._op == "decoded" and t._args[0] == ("text", whole):
                return json.loads(json.dumps({})) or {k: dict(v) for k, v in header.items()}
            raise json.JSONDecodeError("incomplete index", "", 0)
        io.fs.parsed["header"] = parse

    def number(self, fmt, content):
        if content[0] == "u64" and fmt in ("<Q", "<q", "Q", "q"):
            return content[1]
        return self.io.lin.sym(f"number{self.prog.uid()}")

    def open(self):
        self.io.fs.number = self.number
        B = self.io.lin.sym("buffer_size")
        self.obj = self.prog.call(self.cls, (APath(SRC), B), {})
        return self.obj

    def get(self, k, thread=0):
        old, self.prog.thread = self.prog.thread, self.io.threads[thread]
        try:
            return self.prog.subscript(self.obj, k)
        finally:
            self.prog.thread = old

    def problems(self, k, t):
        lo, hi, n = self.ranges[k]
        if not isinstance(t, ATensor):
            return [f"reading '{k}' returns {show(t)}"]
        out = []
        want = next(d for d, s in NAMES.items() if s == self.dtype)
        if t.dtype is not models.DTYPES[want]:
            out.append(f"'{k}' is indexed as {self.dtype} but read as {t.dtype.name}")
        if len(t.shape) != 1 or not self.io.lin.equal(t.shape[0], n):
            out.append(f"'{k}' has shape [{show(n)}] in the index but is read with shape {show(tuple(t.shape))}")
        if self.io.lin.equal(hi - lo, 0) or eqv(hi - lo, 0):
            return out
        try:
            segs = t.byte_segs()
        except EngineError:
            segs = []
        if len(segs) != 1 or segs[0][1][0] != "file" or not self.io.lin.equal(segs[0][1][2], lo) or not self.io.lin.equal(segs[0][0], hi - lo):
            what = ", ".join(f"{show(m)} bytes of {c}" for m, c in segs)
            out.append(f"'{k}' should hold data bytes [{show(lo)}, {show(hi)}) but holds {what or 'nothing'}")
        elif not le(hi, self.D):
            out.append(f"'{k}' was returned although the file ends before its data")
        return out
