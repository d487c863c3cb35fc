"""Abstract files, byte buffers, tensors-in-memory and threads for the streaming checks.

Byte strings are sequences of segments (length, content); lengths are polynomials
over symbolic sizes.  Nothing is ever read or written for real.
"""
import ctypes
import io
import json
import struct
import threading
import weakref

from . import terms, models
from .engine import APath, ALock, ext
from .linear import Linear
from .terms import Term, EngineError, PathEnd, is_term

P = lambda: terms.PROG


def tr(c):
    return P().truth(c) if is_term(c) else bool(c)


def le(a, b):
    return not tr(terms.lt(b, a))


def eqv(a, b):
    return tr(terms.eq(a, b))


def sub(content, off, n, full=None):
    k = content[0]
    if k == "file":
        return ("file", content[1], content[2] + off)
    if k in ("zero", "rep"):
        return content
    if k == "bytes" and isinstance(off, int) and isinstance(n, int):
        return ("bytes", content[1][off:off + n])
    if k == "part":
        return ("part", content[1], content[2] + off, content[3])
    if k == "live":
        return ("live", content[1], content[2] + off)
    return ("part", content, off, full)


def join(segs):
    """merge neighbours that continue each other"""
    out = []
    for n, c in segs:
        if isinstance(n, int) and type(n) is not Term and n == 0:
            continue
        if out:
            m, d = out[-1]
            if c[0] == d[0]:
                if c[0] == "part" and c[1] is d[1] and terms.same(d[2] + m, c[2]):
                    n, c = m + n, d
                    out.pop()
                elif c[0] == "file" and c[1] == d[1] and terms.same(d[2] + m, c[2]):
                    n, c = m + n, d
                    out.pop()
                elif c[0] == "zero" or c[0] == "rep" and c[1] == d[1]:
                    n = m + n
                    out.pop()
        if c[0] == "part" and terms.same(c[2], 0) and terms.same(n, c[3]):
            c = c[1]
        out.append((n, c))
    return out


class ABytes:
    """An immutable byte string."""
    mutable = False

    def __init__(self, segs=()):
        self.segs = [(n, c) for n, c in segs if not (isinstance(n, int) and n == 0)]

    @property
    def alen(self):
        t = 0
        for n, _ in self.segs:
            t = t + n
        return t

    def cut(self, start, stop):
        """segments of [start, stop) - the path is split where order is undetermined"""
        out, pos = [], 0
        for n, c in self.segs:
            end = pos + n
            if le(end, start):
                pos = end
                continue
            if le(stop, pos):
                break
            lo = start if tr(terms.lt(pos, start)) else pos
            hi = stop if tr(terms.lt(stop, end)) else end
            if lo is pos and hi is end:
                out.append((n, c))
            else:
                m = hi - lo
                if not eqv(m, 0):
                    out.append((m, sub(c, lo - pos, m, n)))
            pos = end
        return join(out)

    def clip(self, i, default):
        if i is None:
            return default
        if tr(terms.lt(i, 0)):
            i = i + self.alen
            if tr(terms.lt(i, 0)):
                return 0
        n = self.alen
        if tr(terms.lt(n, i)):
            return n
        return i

    def slice(self, s):
        if s.step is not None and s.step != 1:
            raise EngineError("stepped slice of bytes")
        n = self.alen
        a, b = self.clip(s.start, 0), self.clip(s.stop, n)
        if le(b, a):
            return []
        return self.cut(a, b)

    def __getitem__(self, s):
        if isinstance(s, slice):
            return type(self)(self.slice(s))
        raise EngineError("indexing of bytes")

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        return not eqv(self.alen, 0)

    def __add__(self, o):
        return type(self)(self.segs + to_segs(o))

    def __radd__(self, o):
        return ABytes(to_segs(o) + self.segs)

    def tobytes(self):
        return ABytes(self.segs)

    def decode(self, *a, **k):
        if len(self.segs) == 1:
            n, c = self.segs[0]
            return Term("decoded", c, n, ty=str)
        return Term("decoded", tuple(self.segs), self.alen, ty=str)

    def ljust(self, width, fill=b" "):
        m = width - self.alen
        if le(m, 0):
            return ABytes(self.segs)
        return ABytes(self.segs + [(m, ("rep", fill))])

    def __getattr__(self, n):
        raise EngineError(f"bytes.{n} is not modelled")


class ABuffer(ABytes):
    """A bytearray."""
    mutable = True

    def __init__(self, segs=()):
        super().__init__(segs)
        self.exports = []
        self.version = 0

    def __getitem__(self, s):
        if isinstance(s, slice):
            return ABuffer(self.slice(s))
        raise EngineError("indexing of bytearray")

    def splice(self, a, b, segs):
        left = self.cut(0, a)
        right = self.cut(b, self.alen)
        self.segs = join(left + segs + right)
        self.version += 1

    def resize_check(self, n):
        if self.exports and not eqv(n, self.alen):
            raise BufferError("Existing exports of data: object cannot be re-sized")

    def __setitem__(self, s, v):
        P().sched("buffer store")
        segs = to_segs(v)
        n = self.alen
        a, b = self.clip(s.start, 0), self.clip(s.stop, n)
        if tr(terms.lt(b, a)):
            b = a
        if self.exports:
            m = 0
            for x, _ in segs:
                m = m + x
            self.resize_check(n - (b - a) + m)
        self.splice(a, b, segs)
        P().emit("bufstore", obj=self)

    def __delitem__(self, s):
        a, b = self.clip(s.start, 0), self.clip(s.stop, self.alen)
        self.resize_check(self.alen - (b - a))
        self.splice(a, b, [])

    def extend(self, v):
        segs = to_segs(v)
        P().sched("buffer store")
        if segs:
            self.resize_check(self.alen + 1)
        self.segs = self.segs + segs
        self.version += 1

    def __iadd__(self, v):
        self.extend(v)
        return self

    def clear(self):
        self.resize_check(0)
        self.segs = []
        self.version += 1


class AView:
    """memoryview of a buffer"""

    def __init__(self, buf, start=0, stop=None):
        self.buf, self.start = buf, start
        self.stop = buf.alen if stop is None else stop

    @property
    def alen(self):
        return self.stop - self.start

    nbytes = alen

    def __getitem__(self, s):
        h = ABytes([(self.alen, ("zero",))])
        a, b = h.clip(s.start, 0), h.clip(s.stop, self.alen)
        if tr(terms.lt(b, a)):
            b = a
        return AView(self.buf, self.start + a, self.start + b)

    def __setitem__(self, s, v):
        h = ABytes([(self.alen, ("zero",))])
        a, b = h.clip(s.start, 0), h.clip(s.stop, self.alen)
        self.buf.splice(self.start + a, self.start + b, to_segs(v))

    def tobytes(self):
        return ABytes(self.segs)

    @property
    def segs(self):
        return self.buf.cut(self.start, self.stop)

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __hash__(self):
        return id(self)


def to_segs(v):
    if isinstance(v, (ABytes, AView)) and type(v) is not Term:
        return list(v.segs)
    if isinstance(v, ANumpy):
        return v.bytes_segs()
    if type(v) in (bytes, bytearray):
        return [(len(v), ("bytes", bytes(v)))] if v else []
    if is_term(v):
        if v._op == "*":
            a, b = v._args
            if type(a) is bytes and len(a) == 1:
                # negative repetition counts give the empty string
                return [] if le(b, 0) else [(b, ("rep", a))]
            if type(b) is bytes and len(b) == 1:
                return [] if le(a, 0) else [(a, ("rep", b))]
        if v._op == "u64":
            return [(8, ("u64", v._args[0]))]
        if v._op in ("call", "icall") and v._args[0]._op == "attr" and v._args[0]._args[1] == "to_bytes":
            a = v._args[1] + tuple(x for _, x in v._args[2])
            if a and a[0] == 8 and ("little" in a[1:]):
                return [(8, ("u64", v._args[0]._args[0]))]
        if v._op == "encoded":
            return [(P().linear.sym(f"len{v._id}"), ("text", v._args[0]))]
    raise EngineError(f"bytes value not modelled: {terms.show(v)}")


# ---------------------------------------------------------------------------- files
class AFile:
    def __init__(self, fs, path, mode, raw):
        self.fs, self.path, self.mode, self.raw = fs, path, mode, raw
        self.pos = 0
        self.closed = False
        if "w" in mode:
            fs.files[path] = ABuffer()
            P().emit("truncate", path=path)
        elif path not in fs.files:
            raise FileNotFoundError(path)
        self.data = fs.files[path]
        fs.opened.append(self)

    name = property(lambda s: s.path)

    def step(self, op):
        P().sched(f"file {op}")
        if self.closed:
            raise ValueError("I/O operation on closed file")
        P().emit("file", op=op, obj=self)
        if self.fs.faults and op in self.fs.faults and P().choose(None, 2, f"{op} of {self.path} fails") == 1:
            raise OSError(f"{op} of {self.path} failed")

    def transfer(self, n):
        """number of bytes a read of n gets"""
        rem = self.data.alen - self.pos
        if tr(terms.lt(rem, 0)):
            return 0
        m = rem if tr(terms.lt(rem, n)) else n
        if self.raw and P().choose(None, 2, "short transfer"):
            s = P().linear.sym(f"short{P().uid()}")
            P().linear.extra.append(terms.poly_bin("-", terms.poly(m - 1), terms.poly(s)))
            return s
        return m

    def read(self, n=-1):
        self.step("read")
        self.fs.reads.append((self.path, n))
        if n is None or isinstance(n, int) and type(n) is not Term and n < 0:
            n = self.data.alen - self.pos
        m = self.transfer(n)
        r = ABytes(self.data.cut(self.pos, self.pos + m))
        self.pos = self.pos + m
        P().sched("after read")
        return r

    def readinto(self, buf):
        self.step("read")
        view = buf if isinstance(buf, AView) else AView(buf)
        self.fs.reads.append((self.path, view.alen))
        m = self.transfer(view.alen)
        segs = self.data.cut(self.pos, self.pos + m)
        view.buf.splice(view.start, view.start + m, segs)
        P().emit("bufstore", obj=view.buf)
        self.pos = self.pos + m
        P().sched("after read")
        return m

    def write(self, data):
        self.step("write")
        segs = to_segs(data)
        n = 0
        for x, _ in segs:
            n = n + x
        if self.raw and not (isinstance(n, int) and n <= 1) and P().choose(None, 2, "partial write"):
            m = P().linear.sym(f"short{P().uid()}")
            P().linear.extra.append(terms.poly_bin("-", terms.poly(n - 1), terms.poly(m)))
            segs = ABytes(segs).cut(0, m)
            n = m
        L = self.data.alen
        if tr(terms.lt(L, self.pos)):
            self.data.segs.append((self.pos - L, ("zero",)))
            L = self.pos
        end = self.pos + n
        self.data.splice(self.pos, L if tr(terms.lt(L, end)) else end, segs)
        self.pos = end
        P().sched("after write")
        return n

    def writelines(self, parts):
        for x in parts:
            self.write(x)

    def seek(self, off, whence=0):
        self.step("seek")
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else self.data.alen + off
        return self.pos

    def tell(self):
        self.step("tell")
        return self.pos

    def truncate(self, size=None):
        self.step("truncate")
        size = self.pos if size is None else size
        L = self.data.alen
        if tr(terms.lt(L, size)):
            self.data.segs.append((size - L, ("zero",)))
        else:
            self.data.segs = self.data.cut(0, size)
        return size

    def flush(self):
        self.step("flush")

    def fileno(self):
        return Term("fileno", self, ty=int)

    def close(self):
        if not self.closed:
            P().sched("file close")
            P().emit("file", op="close", obj=self)
        self.closed = True

    def readable(self):
        return True

    writable = seekable = readable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __hash__(self):
        return id(self)

    def __getattr__(self, n):
        raise EngineError(f"file.{n} is not modelled")


class FS:
    def __init__(self, prog):
        self.prog = prog
        self.files, self.opened, self.faults = {}, [], ()
        self.jsons, self.reads = {}, []
        self.parsed = {}

    def open(self, path, mode="r", buffering=-1, *a, **k):
        path = str(path)
        if "b" not in mode:
            raise EngineError(f"text file {path} opened with mode {mode}")
        if "open" in self.faults and P().choose(None, 2, f"opening {path} fails") == 1:
            raise PermissionError(f"cannot open {path}")
        return AFile(self, path, mode, buffering == 0)


# ---------------------------------------------------------------------------- tensors
class ADevice(models.device):
    index = None

    def __init__(self, type):
        self.type, self.args = type, (type,)

    def __eq__(self, o):
        if isinstance(o, str):
            return o == self.type
        return isinstance(o, models.device) and o.args == self.args

    def __hash__(self):
        return hash(self.type)

    def __str__(self):
        return self.type


class APtr:
    """an address: `shift` bytes after the first element of a tensor"""

    def __init__(self, tensor, shift=0):
        self.ref, self.name, self.shift = weakref.ref(tensor), tensor.name, shift

    def moved(self, n):
        r = APtr.__new__(APtr)
        r.ref, r.name, r.shift = self.ref, self.name, self.shift + n
        return r

    def __add__(self, n):
        return self.moved(n)

    __radd__ = __add__

    def __sub__(self, n):
        return self.moved(-n)

    def __hash__(self):
        return id(self)


class ANumpy:
    def __init__(self, segs, owner=None, ptr=None):
        self.segs_, self.owner, self.ptr = segs, owner, ptr

    def bytes_segs(self):
        if self.ptr is not None and self.ptr.ref() is None:
            return [(n, ("freed memory of", self.ptr.name)) for n, _ in self.segs_]
        return list(self.segs_)

    @property
    def alen(self):
        return ABytes(self.segs_).alen

    nbytes = size = alen

    def tobytes(self, *a, **k):
        return ABytes(self.bytes_segs())

    def view(self, *a):
        return self

    reshape = ravel = flatten = squeeze = view

    def copy(self, *a, **k):
        return ANumpy(self.bytes_segs())

    @property
    def data(self):
        return self

    def __hash__(self):
        return id(self)

    def __getattr__(self, n):
        raise EngineError(f"ndarray.{n} is not modelled")


class AStorage(ANumpy):
    """the whole storage of a tensor: begins `storage_offset` elements before its first element"""

    def data_ptr(self):
        t = self.owner
        return APtr(t, -t.storage_offset() * t.dtype.itemsize)

    def nbytes(self):
        return self.alen

    size = nbytes


NO_NUMPY = {"bfloat16", "float8_e4m3fn", "float8_e5m2", "float8_e4m3fnuz", "float8_e5m2fnuz"}


class ATensor(models.Tensor):
    """A tensor with a memory layout.  `content` names its elements in row-major order."""

    def __init__(self, name, numel, dtype, shape, contiguous, cpu, content, buffer=None, offset=0, dev=None, finite=True, soff=None):
        self.dev, self.finite, self.soff = dev, finite, soff
        self.name, self._n, self.dtype, self.shape = name, numel, dtype, shape
        self.contig, self.on_cpu, self.content = contiguous, cpu, content
        self.buffer, self.offset = buffer, offset

    def like(self, **k):
        d = dict(name=self.name, numel=self._n, dtype=self.dtype, shape=self.shape, contiguous=self.contig, cpu=self.on_cpu,
                 content=self.content, buffer=self.buffer, offset=self.offset, dev=self.dev, finite=self.finite, soff=self.soff)
        if "buffer" in k and "soff" not in k:
            k["soff"] = 0  # a copy
        d.update(k)
        return ATensor(**d)

    def byte_segs(self):
        """the elements, as bytes, now"""
        n = self._n * self.dtype.itemsize
        if self.buffer is not None:
            return self.buffer.cut(self.offset, self.offset + n)
        return [(n, self.content)]

    # queries
    def numel(self):
        return self._n

    nelement = numel

    def element_size(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self._n * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def ndim(self):
        return len(self.shape)

    def dim(self):
        return len(self.shape)

    def size(self, i=None):
        return self.shape if i is None else self.shape[i]

    @property
    def is_cuda(self):
        return not self.is_cpu

    @property
    def is_cpu(self):
        if self.on_cpu is None:
            self.on_cpu = P().choose(("cpu", self.name), 2, f"{self.name} is on the cpu") == 0
        return self.on_cpu

    @property
    def device(self):
        return ADevice("cpu" if self.is_cpu else self.dev or "cuda")

    def is_contiguous(self, *a, **k):
        if self.contig is None:
            self.contig = P().choose(("contiguous", self.name), 2, f"{self.name} is contiguous") == 0
        return self.contig

    @staticmethod
    def other_format(a, k):
        f = a[0] if a else k.get("memory_format")
        return f is not None and "contiguous_format" not in terms.show(f)

    def storage_(self):
        return AStorage([(P().linear.sym(f"storage_{self.name}"), ("whole storage of", self.name))], owner=self)

    def storage_offset(self):
        if self.soff is None:
            self.soff = P().linear.sym(f"storage_offset_{self.name}")
        return self.soff

    untyped_storage = storage = storage_

    requires_grad = is_sparse = False

    @property
    def is_meta(self):
        return False

    @property
    def layout(self):
        return Term("ext", "torch.strided")

    # views and copies
    def cpu(self):
        return self if self.is_cpu else self.like(cpu=True, soff=0)

    def contiguous(self, *a, **k):
        if self.other_format(a, k):
            return self.like(contiguous=False, buffer=None)
        return self if self.is_contiguous() else self.like(contiguous=True, buffer=None)

    def detach(self):
        return self.like()

    def clone(self, *a, **k):
        f = a[0] if a else k.get("memory_format")
        keep = {} if f is None else dict(contiguous=not self.other_format(a, k))
        return self.like(buffer=None, content=self.snapshot(), **keep)

    def snapshot(self):
        if self.buffer is None:
            return self.content
        s = self.byte_segs()
        return s[0][1] if len(s) == 1 else ("cat", tuple(s))

    def to(self, *a, **k):
        r = self
        for x in list(a) + [v for kk, v in k.items() if kk in ("device", "dtype")]:
            if isinstance(x, models.dtype):
                if x is not r.dtype:
                    r = r.like(dtype=x, content=("cast", r.snapshot(), x.name), buffer=None)
            elif x in ("cpu",):
                r = r.cpu()
            elif isinstance(x, models.device) and x.args == ("cpu",) or isinstance(x, ADevice) and x.type == "cpu":
                r = r.cpu()
            elif isinstance(x, str) or isinstance(x, models.device):
                x = x if isinstance(x, str) else x.args[0]
                if r.is_cpu or r.device != x:
                    r = r.like(cpu=False, dev=x, content=r.snapshot(), buffer=None)
            elif x is not None:
                raise EngineError("tensor.to with an unknown target")
        return r.clone() if k.get("copy") and r is self else r

    def isfinite(self):
        return ABools(self.finite, self.finite)

    def isnan(self):
        return ABools(False, not self.finite)

    isinf = isnan

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (list, tuple)):
            shape = tuple(shape[0])
        c = self.is_contiguous()
        return self.like(shape=models.Size(shape) if shape != (-1,) else models.Size((self._n,)), contiguous=True,
                         **({} if c else {"buffer": None}))

    def flatten(self, *a):
        return self.reshape(-1)

    ravel = flatten

    def view(self, *a):
        if len(a) == 1 and isinstance(a[0], models.dtype):
            f = self.dtype.itemsize
            if not self.shape and f != a[0].itemsize:
                raise RuntimeError("self.dim() cannot be 0 to view a dtype as another of different element size")
            if not self.is_contiguous():
                raise RuntimeError("view of a non-contiguous tensor")
            return self.like(dtype=a[0], numel=self._n * f // a[0].itemsize)
        if not self.is_contiguous():
            raise RuntimeError("view size is not compatible")
        return self.reshape(*a)

    def data_ptr(self):
        if eqv(self._n, 0):
            return 0
        return APtr(self)

    def numpy(self, *a, **k):
        if not self.is_cpu:
            raise TypeError("can't convert device tensor to numpy")
        if self.dtype.name in NO_NUMPY:
            raise TypeError("Got unsupported ScalarType")
        return ANumpy(self.byte_segs(), owner=self)

    def __hash__(self):
        return id(self)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n.endswith("_") and not n.endswith("__"):
            P().emit("tensor_mutated", obj=self, method=n)
            return lambda *a, **k: self
        raise EngineError(f"Tensor.{n} is not modelled")


class ABools(models.Tensor):
    """a boolean tensor: whether all / any elements are true"""

    def __init__(self, every, some):
        self.every, self.some = every, some

    def all(self):
        return ABools(self.every, self.every)

    def any(self):
        return ABools(self.some, self.some)

    def __invert__(self):
        return ABools(not self.some, not self.every)

    logical_not = __invert__

    def __or__(self, o):
        return ABools(self.every or o.every, self.some or o.some)

    def item(self):
        if self.every is not self.some:
            raise EngineError("item of several booleans")
        return self.every

    __bool__ = item

    def __hash__(self):
        return id(self)


# ---------------------------------------------------------------------------- threads
class AThread:
    def __init__(self, i):
        self.ident = self.native_id = 1000 + i
        self.name = f"worker-{i}"
        self.daemon = False

    def __hash__(self):
        return self.ident

    def __eq__(self, o):
        return self is o


class TLock(ALock):
    """A lock that knows its owner: a preempting thread that needs it cannot proceed."""

    def acquire(self, *a, **k):
        p = P()
        p.sched("lock acquire")
        if self.held:
            if self.owner is not p.thread:
                raise PathEnd("blocked on a lock held by the preempted thread")
            if not self.reentrant:
                p.emit("deadlock", obj=self)
                raise PathEnd("deadlock")
        self.owner = p.thread
        self.held += 1
        p.emit("acquire", obj=self)
        return True

    def release(self):
        p = P()
        p.emit("release", obj=self)
        self.held = max(0, self.held - 1)
        p.sched("lock released")

    def __exit__(self, *exc):
        self.release()
        return False


class TLocal:
    def __init__(self, *a):
        object.__setattr__(self, "_d", {})

    def _cur(self):
        return self._d.setdefault(P().thread, {})

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        try:
            return self._cur()[n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        self._cur()[n] = v

    def __delattr__(self, n):
        try:
            del self._cur()[n]
        except KeyError:
            raise AttributeError(n)

    @property
    def __dict__(self):
        return self._cur()

    def __hash__(self):
        return id(self)


class IO:
    """Installs the models into a Program."""

    def __init__(self, prog):
        self.prog = prog
        prog.io = self
        self.lin = Linear(prog)
        prog.lt_facts, prog.eq_facts = self.lin.lt, self.lin.eq
        prog.thread = None
        prog.sched = self.sched
        self.armed = None
        self.fs = FS(prog)
        E, O, T = prog.ext_values, prog.overrides, prog.term_models
        E["threading.current_thread"] = lambda: prog.thread
        E["threading.currentThread"] = lambda: prog.thread
        E["threading.get_ident"] = E["threading.get_native_id"] = lambda: prog.thread.ident
        E["threading.main_thread"] = lambda: self.threads[0]
        E["threading.Lock"] = lambda: TLock("Lock")
        E["threading.RLock"] = lambda: TLock("RLock", reentrant=True)
        E["threading.local"] = TLocal
        repo_open = T["builtins.open"]
        T["builtins.open"] = lambda p, a, k: repo_open(p, a, k) if str(a[0]).startswith(str(p.root)) else self.fs.open(*a, **k)
        T["io.open"] = T["builtins.open"]
        O[id(open)] = T["builtins.open"]
        T["ctypes.cast"] = lambda p, a, k: a[0]
        T["ctypes.string_at"] = lambda p, a, k: ABytes(self.memory(a[0], a[1]).bytes_segs())
        T["numpy.ctypeslib.as_array"] = lambda p, a, k: self.memory(a[0], (a[1] if len(a) > 1 else k["shape"])[0])
        T["numpy.asarray"] = T["numpy.array"] = lambda p, a, k: a[0].numpy() if isinstance(a[0], ATensor) else NotImplemented
        T["torch.frombuffer"] = self.frombuffer
        T["torch.tensor"] = self.mktensor
        for n in ("isfinite", "isnan", "isinf"):
            T[f"torch.{n}"] = lambda p, a, k, n=n: getattr(a[0], n)()
        T["torch.all"] = lambda p, a, k: a[0].all()
        T["torch.any"] = lambda p, a, k: a[0].any()
        T["torch.empty"] = T["torch.zeros"] = self.mkempty
        T["tqdm.tqdm"] = lambda p, a, k: a[0] if a else k["iterable"] if "iterable" in k else NotImplemented
        prog.native_models[int, "from_bytes"] = self.from_bytes
        prog.bytearray_model = self.bytearray_
        O[id(bytes)] = self.bytes_
        O[id(memoryview)] = lambda p, a, k: AView(a[0]) if isinstance(a[0], ABytes) else a[0] if isinstance(a[0], ANumpy) else memoryview(*a)
        O[id(json.dumps)] = self.dumps
        O[id(json.loads)] = self.loads
        O[id(struct.pack)] = self.pack
        O[id(struct.unpack)] = self.unpack
        prog.len_hooks = (lambda p, x: x.alen if isinstance(x, (ABytes, AView, ANumpy)) and type(x) is not Term else None,) + tuple(prog.len_hooks)
        prog.len_hooks = (self.text_len,) + prog.len_hooks
        prog.call_hooks.append(self.calls)
        prog.iter_hooks = (self.iter_range,) + tuple(prog.iter_hooks)
        prog.num_conv = self.num_conv
        emit0 = prog.emit

        def emit(kind, **d):
            if kind in ("setattr", "setitem", "mutcall", "delitem", "setglobal", "getattr"):
                prog.sched(kind)
            return emit0(kind, **d)
        prog.emit = emit

    def fresh(self):
        """start of a trace"""
        self.fs = FS(self.prog)
        self.lin.extra = []
        self.threads = [AThread(i) for i in range(3)]
        self.prog.thread = self.threads[0]
        self.armed = None
        self.fired = None
        self.points = None         # places where a preemption was considered, when one each is enough
        self.interleave = None
        self.reserved = None
        self.measured = set()

    def sched(self, label):
        if self.armed is None or not self.prog.recording:
            return
        if self.points is not None:
            stack = self.prog.stack
            at = (id(stack[-1][2]) if stack else 0, label, len(stack))
            if at in self.points:
                return
            self.points.add(at)
        if self.prog.choose(None, 2, f"preempted at {label} ({self.prog.loc()})") == 1:
            f, self.armed = self.armed, None
            self.fired = f"{label} at {self.prog.loc()}"
            old, self.prog.thread = self.prog.thread, self.threads[1]
            try:
                f()
            finally:
                self.prog.thread = old

    def preempt_with(self, f, body):
        self.armed = f
        try:
            return body()
        finally:
            self.armed = None

    # ---- value models
    def calls(self, p, name, recv, args, kwargs):
        if recv is not None and is_term(recv):
            if recv._op == "const" and isinstance(recv._args[0], APath):
                path = recv._args[0]
                if name == "open":
                    return self.fs.open(path, *args, **kwargs)
                if name in ("exists", "is_file"):
                    return str(path) in self.fs.files
                if name == "stat":
                    return Term("stat", path)
                if name in ("unlink", "mkdir"):
                    return None
            if name == "encode" and recv._ty is str:
                n = recv
                while is_term(n) and n._op in ("call", "icall") and n._args[0]._op == "attr" and n._args[0]._args[1] in ("strip",):
                    n = n._args[0]._args[0]
                return ABytes([(self.size_of(n), ("text", n))])
            if name in ("strip", "rstrip", "lstrip") and recv._op in ("decoded", "jsontext"):
                return recv
            if name == "to_bytes" and terms.numeric(recv):
                a = list(args) + [kwargs.get("length"), kwargs.get("byteorder")]
                if 8 in a and "little" in a:
                    return ABytes([(8, ("u64", recv))])
                return ABytes([(a[0], ("number", recv, tuple(str(x) for x in a)))])
        return NotImplemented

    def size_of(self, text):
        """bytes of a text in utf-8"""
        if self.index_exact and self.reserved is not None and is_term(text) and text._op == "jsontext":
            return self.reserved
        L = self.lin.sym(f"|{terms.show(text)}|")
        if is_term(text) and text._op == "jsontext" and text not in self.measured:
            self.measured.add(text)
            self.lin.extra.append(terms.poly(L - 2))
            if self.reserved is None:
                self.reserved = L
            elif self.index_fits:
                self.lin.extra.append(terms.poly(self.reserved - L))
        return L

    def text_len(self, p, t):
        if is_term(t) and t._op == "jsontext":
            # ascii-only texts have as many characters as bytes
            return self.size_of(t) if t._args[1] else self.lin.sym(f"chars({terms.show(t)})")
        return None

    def num_conv(self, f, a):
        if f is int and is_term(a[0]) and terms.numeric(a[0]):
            return a[0]
        return NotImplemented

    def iter_range(self, p, t):
        if t._op != "range":
            return NotImplemented
        start, stop, step = t._args
        down = tr(terms.lt(step, 0))
        if not down and eqv(step, 0):
            raise ValueError("range() arg 3 must not be zero")

        def gen():
            i = start
            for k in range(self.range_bound):
                if not tr(terms.lt(stop, i) if down else terms.lt(i, stop)):
                    return
                yield i
                i = i + step
            if tr(terms.lt(stop, i) if down else terms.lt(i, stop)):
                raise PathEnd("more chunks than unrolled")
        return gen()

    range_bound = 3
    index_exact = False      # assume every index text has the length of the first
    index_fits = False       # assume later index texts are no longer than the first

    def bytearray_(self, p, a):
        if not a:
            return ABuffer()
        x = a[0]
        if isinstance(x, int) and type(x) is not Term or terms.numeric(x):
            if tr(terms.lt(x, 0)):
                raise ValueError("negative count")
            return ABuffer([(x, ("zero",))])
        return ABuffer(to_segs(x))

    def bytes_(self, p, a, k):
        if not a:
            return b""
        x = a[0]
        if isinstance(x, (ABytes, AView, ANumpy)):
            return ABytes(to_segs(x))
        if terms.numeric(x) and is_term(x):
            return ABytes([(x, ("zero",))])
        if is_term(x):
            return ABytes(to_segs(x))
        return bytes(*a, **k)

    def dumps(self, p, a, k):
        def snap(x):
            if isinstance(x, dict):
                return {kk: snap(v) for kk, v in x.items()}
            if isinstance(x, (list, tuple)):
                return [snap(v) for v in x]
            return x
        i = p.uid()
        self.fs.jsons[i] = snap(a[0])
        return Term("jsontext", i, bool(k.get("ensure_ascii", True)), ty=str)

    def loads(self, p, a, k):
        t = a[0]
        if is_term(t):
            if t._op == "decoded" or t._op == "text":
                h = self.fs.parsed.get("header")
                if h is not None:
                    return h(t)
            raise EngineError(f"json.loads of {terms.show(t)}")
        if isinstance(t, ABytes):
            return self.loads(p, (t.decode(),), k)
        return json.loads(*a, **k)

    def pack(self, p, a, k):
        fmt, vals = a[0], a[1:]
        if len(vals) == 1 and fmt in ("<Q", "<q"):
            return ABytes([(8, ("u64", vals[0]))])
        return ABytes([(struct.calcsize(fmt), ("packed", fmt) + tuple(vals))])

    def from_bytes(self, p, a, k):
        if not isinstance(a[0], (ABytes, AView, ANumpy)):
            return NotImplemented
        order = a[1] if len(a) > 1 else k.get("byteorder", "big")
        s = to_segs(a[0])
        if len(s) == 1 and s[0][1][0] == "u64" and order == "little" and eqv(s[0][0], 8):
            return s[0][1][1]
        return self.lin.sym(f"number{p.uid()}")

    def unpack(self, p, a, k):
        fmt, data = a
        want = struct.calcsize(fmt)
        n = data.alen if isinstance(data, ABytes) else len(data)
        if not eqv(n, want):
            raise struct.error(f"unpack requires a buffer of {want} bytes")
        c = data.segs[0][1]
        return (self.fs.number(fmt, c),)

    def memory(self, ptr, n):
        if not isinstance(ptr, APtr):
            return ANumpy([(n, ("memory at unknown address",))])
        t = ptr.ref()
        if t is None:
            return ANumpy([(n, ("freed memory of", ptr.name))])
        if not t.is_cpu:
            return ANumpy([(n, ("device memory of", t.name))], ptr=ptr)
        if not t.is_contiguous():
            return ANumpy([(n, ("strided memory of", t.name))], ptr=ptr)
        if not eqv(ptr.shift, 0):
            return ANumpy([(n, ("memory at another address than", t.name))], ptr=ptr)
        full = t.byte_segs()
        total = t.nbytes
        if eqv(n, total):
            return ANumpy(full, ptr=ptr)
        if le(n, total):
            return ANumpy(ABytes(full).cut(0, n), ptr=ptr)
        return ANumpy(full + [(n - total, ("memory after", t.name))], ptr=ptr)

    def frombuffer(self, p, a, k):
        names = ("buffer",)
        buf = a[0] if a else k["buffer"]
        dtype, count, offset = k["dtype"], k.get("count", -1), k.get("offset", 0)
        base, start = (buf.buf, buf.start) if isinstance(buf, AView) else (buf, 0)
        if isinstance(count, int) and type(count) is not Term and count == -1:
            count = (buf.alen - offset) // dtype.itemsize
        if not isinstance(base, ABytes):
            raise EngineError("frombuffer of an unknown buffer")
        p.sched("frombuffer")
        need = offset + count * dtype.itemsize
        if tr(terms.lt(buf.alen, need)) or tr(terms.lt(offset, 0)):
            raise ValueError("requested buffer length is out of range")
        if le(count, 0):
            raise ValueError("both buffer length and count must not be 0")
        if base.mutable:
            base.exports.append(1)
        return ATensor(f"frombuffer{p.uid()}", count, dtype, models.Size((count,)), True, True, None, buffer=base, offset=start + offset)

    def mktensor(self, p, a, k):
        if isinstance(a[0], list) and not a[0]:
            return ATensor(f"empty{p.uid()}", 0, k.get("dtype"), models.Size((0,)), True, True, ("empty",))
        if isinstance(a[0], (ABytes, ANumpy)):
            raise EngineError("torch.tensor of bytes")
        if isinstance(a[0], (int, float)) and not is_term(a[0]):
            d = k.get("dtype") or models.DTYPES["bool" if isinstance(a[0], bool) else "int64" if isinstance(a[0], int) else "float32"]
            return ATensor(f"number{a[0]}", 1, d, models.Size(()), True, True, ("number", a[0]))
        return NotImplemented

    def mkempty(self, p, a, k):
        shape = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
        n = 1
        for x in shape:
            n = n * x
        return ATensor(f"empty{p.uid()}", n, k.get("dtype"), models.Size(tuple(shape)), True, True, ("fresh",))
