"""Abstract runs of `merge`: model files, executors, tasks, outputs and recipes whose method bodies are chosen by the check."""
import collections.abc
import json
from . import models, terms
from .common import *
from .engine import ControlFlow
from .iomodel import IO, ATensor, ABuffer, ABytes, AFile
from .writer import NAMES

P = lambda: terms.PROG

METHODS = '''
from sd_mecha import *
from sd_mecha.extensions.merge_methods import *
from sd_mecha.streaming import StateDictKeyError
from torch import Tensor
from typing import TypeVar
T = TypeVar("T")

@merge_method(register=False)
def one(a: Parameter(Tensor), **kwargs) -> Return(Tensor):
    return act("one", kwargs["key"], a)

@merge_method(register=False)
def inner(a: Parameter(Tensor), **kwargs) -> Return(Tensor):
    return act("inner", kwargs["key"], a)

@merge_method(register=False)
def other(a: Parameter(Tensor), **kwargs) -> Return(Tensor):
    return act("other", kwargs["key"], a)

@merge_method(register=False)
def two(a: Parameter(Tensor), b: Parameter(Tensor), **kwargs) -> Return(Tensor):
    return act("two", kwargs["key"], a, b)

@merge_method(register=False)
def kw(a: Parameter(Tensor), *, b: Parameter(Tensor), **kwargs) -> Return(Tensor):
    return act("kw", kwargs["key"], a, b)

@merge_method(register=False)
def many(*a: Parameter(Tensor), **kwargs) -> Return(Tensor):
    return act("many", kwargs["key"], *a)

@merge_method(register=False)
def sd(a: Parameter(StateDict[Tensor]), b: Parameter(Tensor), **kwargs) -> Return(Tensor):
    return act("sd", kwargs["key"], a[kwargs["key"]], b)

@merge_method(register=False)
def shift(a: Parameter(Tensor, "weight"), b: Parameter(Tensor, "delta"), **kwargs) -> Return(Tensor, "weight"):
    return act("shift", kwargs["key"], a, b)

@merge_method(register=False)
def delta(a: Parameter(Tensor), **kwargs) -> Return(Tensor, "delta"):
    return act("delta", kwargs["key"], a)
'''


class AFut(models.AFuture):
    """A future of the modelled executor; the call runs when it is waited for, or later."""

    def __init__(self, ex=None, fn=None, args=(), kwargs=None):
        super().__init__()
        self.ex, self.call = ex, (fn, args, kwargs or {})
        self.callbacks = []

    def set_result(self, r):
        super().set_result(r)
        self.fire()

    def set_exception(self, e):
        super().set_exception(e)
        self.fire()

    def fire(self):
        cbs, self.callbacks = self.callbacks, []
        for c in cbs:
            P().call(c, (self,), {})

    def run(self):
        if self.done_ or self.cancelled_ or self.ex is None:
            return
        io = P().io
        io.strays += [f.path for f in io.fs.opened if f.closed and not io.over]
        fn, a, k = self.call
        old, io.prog.thread = io.prog.thread, io.threads[self.ex.slot(self)]
        task, io.task = io.task, self
        try:
            r = P().call(fn, a, k) if io.interleave is None else io.interleave(self, lambda: P().call(fn, a, k))
        except ControlFlow:
            raise
        except BaseException as e:
            self.set_exception(e)
        else:
            self.set_result(r)
        finally:
            io.prog.thread, io.task = old, task

    def _ensure(self):
        if self.cancelled_:
            import concurrent.futures
            raise concurrent.futures.CancelledError()
        if self.ex is not None:
            self.ex.progress(self)
        elif not self.done_:
            raise EngineError("waiting for a future that nobody completes")

    def cancel(self):
        if self.done_:
            return False
        if not self.cancelled_ and self.ex is not None and P().choose(None, 2, "task already started when cancelled") == 1:
            return False
        self.cancelled_ = True
        self.fire()
        return True

    def cancelled(self):
        return self.cancelled_

    def done(self):
        return self.done_ or self.cancelled_

    def running(self):
        return False

    def add_done_callback(self, fn):
        if self.done_ or self.cancelled_:
            P().call(fn, (self,), {})
        else:
            self.callbacks.append(fn)


class AExecutor:
    """ThreadPoolExecutor by its contract: each submitted call runs at most once, before shutdown(wait=True) returns."""

    def __init__(self, max_workers=None, *a, **k):
        self.max_workers = max_workers
        if isinstance(max_workers, int) and type(max_workers) is not Term and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.tasks, self.closed = [], False
        P().io.executors.append(self)

    def slot(self, fut):
        n = min(self.max_workers if type(self.max_workers) is int else 2, 2)
        return 1 + self.tasks.index(fut) % n

    def submit(self, fn, /, *a, **k):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        interrupt("submitting a task")
        f = AFut(self, fn, a, k)
        self.tasks.append(f)
        P().emit("submit", obj=self)
        return f

    def progress(self, upto):
        for f in self.tasks:
            f.run()
            if f is upto:
                return

    def map(self, fn, *its, **k):
        fs = [self.submit(fn, *a) for a in zip(*[list(P().iterate(i)) for i in its])]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for f in self.tasks:
                if not f.done_:
                    f.cancel()
        if wait:
            self.progress(None)
            P().emit("joined", obj=self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False

    def __hash__(self):
        return id(self)


def as_completed(p, a, k):
    fs = list(p.iterate(a[0] if a else k["fs"]))
    if len(fs) > 1 and p.io.orders and p.choose(None, 2, "tasks complete in reverse order") == 1:
        fs = fs[::-1]

    def gen():
        for f in fs:
            interrupt("waiting for tasks")
            if isinstance(f, AFut) and f.ex is not None:
                f.run()
            yield f
    return gen()


def wait(p, a, k):
    import concurrent.futures as cf
    fs = list(p.iterate(a[0] if a else k["fs"]))
    when = a[2] if len(a) > 2 else k.get("return_when", "ALL_COMPLETED")
    when = when if isinstance(when, str) else str(when)
    done, rest = set(), list(fs)
    while rest:
        interrupt("waiting for tasks")
        f = rest.pop(0)
        f.run()
        done.add(f)
        if "FIRST_COMPLETED" in when or "FIRST_EXCEPTION" in when and f._e is not None:
            break
    return cf._base.DoneAndNotDoneFutures(done, set(rest))


def interrupt(where):
    if P().io.interrupts and P().choose(None, 2, f"interrupted while {where}") == 1:
        P().io.interrupts = False
        raise KeyboardInterrupt()


class ATqdm:
    def __init__(self, iterable=None, *a, total=None, **k):
        if not P().io.bars:
            interrupt("creating the progress bar")
        self.iterable, self.total, self.n = iterable, total, 0
        P().io.bars.append(self)

    def __iter__(self):
        for x in P().iterate(self.iterable):
            yield x
            self.n += 1

    def update(self, n=1):
        self.n += n

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        pass

    def set_postfix(self, *a, **k):
        pass

    set_postfix_str = set_description = set_description_str = refresh = write = set_postfix

    def __hash__(self):
        return id(self)


class OutMapping(collections.abc.MutableMapping):
    """An output mapping of the caller; stores may fail."""

    def __init__(self, fail=None):
        self.d, self.fail, self.log = {}, fail or {}, []

    def __setitem__(self, k, v):
        self.log.append(("set", k))
        if k in self.fail:
            raise self.fail[k]
        self.d[k] = v

    def __getitem__(self, k):
        return self.d[k]

    def __delitem__(self, k):
        self.log.append(("del", k))
        del self.d[k]

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)

    def __hash__(self):
        return id(self)


class Custom(Exception):
    pass


def install(p):
    io = IO(p)
    E, T = p.ext_values, p.term_models
    E["concurrent.futures.ThreadPoolExecutor"] = E["concurrent.futures.thread.ThreadPoolExecutor"] = AExecutor
    E["concurrent.futures.Future"] = AFut
    E["concurrent.futures.as_completed"] = lambda *a, **k: as_completed(P(), a, k)
    E["concurrent.futures.wait"] = lambda *a, **k: wait(P(), a, k)
    for n in ("FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED"):
        E[f"concurrent.futures.{n}"] = n
    import concurrent.futures
    E["concurrent.futures.CancelledError"] = concurrent.futures.CancelledError
    E["tqdm.tqdm"] = E["tqdm.auto.tqdm"] = ATqdm
    T.pop("tqdm.tqdm", None)
    T["os.cpu_count"] = lambda p, a, k: 8
    T["torch.cuda.is_available"] = lambda p, a, k: io.cuda
    T["warnings.catch_warnings"] = lambda p, a, k: Term("ctx", "catch_warnings")
    for n in ("warning", "error", "warn", "critical", "exception"):
        T[f"logging.{n}"] = lambda p, a, k: io.logs.append(terms.show(a[0]) if a else "")
    T["warnings.warn"] = T["logging.warning"]
    io.logs = []
    io.cuda, io.orders, io.interrupts, io.over, io.strays = False, True, False, False, []
    io.executors, io.bars, io.task = [], [], None


class World:
    """model files and recipes over them"""

    def __init__(self, *before):
        self.prog = p = program(install, *before)
        self.io = p.io
        self.merge = anchor(p, "sd_mecha.merge")
        self.model = anchor(p, "sd_mecha.model")
        self.literal = anchor(p, "sd_mecha.literal")
        self.defaults = anchor(p, "sd_mecha.Defaults")
        self.missing = anchor(p, "sd_mecha.streaming.StateDictKeyError")
        self.mc = p.load("sd_mecha.extensions.model_configs")
        self.impl = anchor(p, "sd_mecha.extensions.model_configs.ModelConfigImpl")
        self.component = anchor(p, "sd_mecha.extensions.model_configs.ModelComponent")
        self.km = anchor(p, "sd_mecha.extensions.model_configs.KeyMetadata")
        self.act = None
        m = p.source("recipes", "def act(*a): pass\n" + METHODS)
        m.__dict__["act"] = lambda *a: self.act(*a)
        self.m = m

    # ---- building
    def config(self, keys, identifier="arch-impl", components=None):
        """keys: {key: (aliases, optional)} in one component, or components: {name: keys}"""
        def comp(ks):
            return self.prog.call(self.component, ({k: self.prog.call(self.km, ([2], "float32"), {"aliases": list(v[0]), "optional": v[1]}) for k, v in ks.items()},), {})
        comps = components if components is not None else {"main": keys}
        return self.prog.call(self.impl, (identifier, {n: comp(ks) for n, ks in comps.items()}), {})

    def fresh(self):
        self.io.fresh()
        self.io.logs = []
        self.io.executors, self.io.bars, self.io.strays, self.io.over = [], [], [], False
        self.io.fs.number = self.number
        self.io.fs.parsed["header"] = self.header

    def number(self, fmt, content):
        if content[0] == "u64" and fmt in ("<Q", "<q", "Q", "q"):
            return content[1]
        raise EngineError("number read from unknown bytes")

    def header(self, t):
        c = t._args[0] if t._op == "decoded" else None
        if c is not None and c[0] == "text" and is_term(c[1]) and c[1]._op == "index":
            h = self.indices[c[1]._args[0]]
            if h is None:
                raise json.JSONDecodeError("malformed index", "", 0)
            return {k: dict(v) for k, v in h.items()}
        raise json.JSONDecodeError("incomplete index", "", 0)

    indices = {}

    def file(self, name, keys, dtype="F32", malformed=False):
        """a model file /models/<name> with one small tensor per key"""
        path = name if name.startswith("/") else f"/models/{name}"
        h, off = {"__metadata__": {}}, 0
        size = next(models.DTYPES[d].itemsize for d, s in NAMES.items() if s == dtype)
        for k in keys:
            h[k] = {"dtype": dtype, "shape": [2], "data_offsets": [off, off + 2 * size]}
            off += 2 * size
        self.indices[path] = None if malformed else h
        segs = [(8, ("u64", 64)), (64, ("text", Term("index", path, ty=str)))] + ([(off, ("file", path, 0))] if off else [])
        self.io.fs.files[path] = ABuffer(segs)
        return path

    def tensor(self, name, dtype="float32"):
        return ATensor(name, 2, models.DTYPES[dtype], models.Size((2,)), True, True, ("tensor", name))

    def node(self, path, config, **k):
        return self.prog.call(self.model, (path,), {"config": config, **k})

    def call(self, f, *a, **k):
        return self.prog.call(f, a, k)

    def either(self, a, b):
        return self.prog.call(self.prog.getattr(a, "__or__"), (b,), {})

    def run(self, recipe, **opts):
        opts.setdefault("model_dirs", [APath("/models")])
        return self.prog.call(self.merge, (recipe,), opts)

    def saved(self, path):
        """(problem, index) of a streamed output"""
        f = self.io.fs.files.get(path)
        if f is None:
            return "the output file does not exist", {}
        s = f.segs
        if len(s) < 2 or s[0][0] != 8 or s[0][1][0] != "u64" or s[1][1][0] != "text" or not is_term(s[1][1][1]) or s[1][1][1]._op != "jsontext":
            return "the output file has no complete index", {}
        end, i = 8 + s[1][0], 2
        while i < len(s) and s[i][1][0] == "rep" and s[i][1][1] in (b" ", " "):
            end, i = end + s[i][0], i + 1
        if not self.io.lin.equal(end, 8 + s[0][1][1]):
            return "the index of the output file is not complete", {}
        return None, self.io.fs.jsons[s[1][1][1]._args[0]]

    def drain(self):
        """tasks still pending when merge is over run now"""
        n = 0
        self.io.over = True
        for ex in self.io.executors:
            for f in ex.tasks:
                if not f.done_ and not f.cancelled_:
                    n += 1
                    f.run()
        return n

    def open_files(self):
        return [f.path for f in self.io.fs.opened if not f.closed]


def content(t):
    """the provenance of a tensor value, casts removed"""
    if isinstance(t, ATensor):
        c = t.snapshot()
    else:
        c = t
    while isinstance(c, tuple) and c and c[0] == "cast":
        c = c[1]
    return c


SHARED = []


def shared():
    """one World for all scenarios of a process (and of the processes forked from it)"""
    if not SHARED:
        SHARED.append(World())
    return SHARED[0]
