"""Models of the builtins and library functions the analysed program meets."""
import builtins
import collections
import functools
import inspect
import math
import types
import typing
import concurrent.futures

from . import terms
from .terms import Term, EngineError, is_term, contains_term


# ---- torch ------------------------------------------------------------------
class Tensor:
    """stand-in for torch.Tensor (a type only)"""


Tensor.__module__, Tensor.__qualname__ = "torch", "Tensor"


class dtype:
    def __init__(self, name, size, is_float):
        self.name, self.itemsize, self.is_floating_point = name, size, is_float

    def __repr__(self):
        return f"torch.{self.name}"

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return id(self)


dtype.__module__, dtype.__qualname__ = "torch", "dtype"


class device:
    def __init__(self, *a):
        self.args = a


device.__module__ = "torch"


class Size(tuple):
    def numel(self):
        r = 1
        for x in self:
            r = r * x
        return r

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return Size(tuple.__add__(self, tuple(o)))


Size.__module__, Size.__qualname__ = "torch", "Size"


class Generator:
    pass


Generator.__module__ = "torch"

# element sizes and kinds: fixed facts about torch, independent of /repo
TORCH_DTYPES = {
    "float64": (8, True), "float32": (4, True), "float16": (2, True), "bfloat16": (2, True),
    "float8_e4m3fn": (1, True), "float8_e5m2": (1, True), "float8_e4m3fnuz": (1, True), "float8_e5m2fnuz": (1, True),
    "int64": (8, False), "int32": (4, False), "int16": (2, False), "int8": (1, False),
    "uint64": (8, False), "uint32": (4, False), "uint16": (2, False), "uint8": (1, False),
    "bool": (1, False), "complex64": (8, False), "complex128": (16, False), "complex32": (4, False),
}
DTYPES = {n: dtype(n, s, f) for n, (s, f) in TORCH_DTYPES.items()}
TORCH_ALIASES = {"half": "float16", "float": "float32", "double": "float64", "long": "int64", "int": "int32",
                 "short": "int16"}


class AThreadLocal:
    pass


INT_METHODS = {"numel", "dim", "nelement", "ndimension", "element_size", "storage_offset", "data_ptr", "nbytes",
               "__len__", "bit_length", "fileno", "tell"}
BOOL_METHODS = {"is_contiguous", "is_floating_point", "is_complex", "startswith", "endswith", "isdigit", "exists",
                "is_file", "is_dir", "is_absolute", "isspace", "isnumeric", "isidentifier", "is_set", "is_alive"}


def install(p):
    from .engine import APath, ALock, CachedFn, Fn, ext, Gen
    E = p.ext_values

    # torch
    E["torch.Tensor"] = Tensor
    E["torch.dtype"] = dtype
    E["torch.device"] = device
    E["torch.Size"] = Size
    E["torch.Generator"] = ext("torch.Generator", ty=None)
    for n, d in DTYPES.items():
        E[f"torch.{n}"] = d
    for n, t in TORCH_ALIASES.items():
        E[f"torch.{n}"] = DTYPES[t]
    E["torch.inf"], E["torch.pi"], E["torch.e"], E["torch.nan"] = math.inf, math.pi, math.e, math.nan
    p.Tensor = Tensor

    # pathlib, threading
    import pathlib
    E["pathlib.Path"] = E["pathlib.PosixPath"] = APath
    E["pathlib.PurePath"] = E["pathlib.PurePosixPath"] = pathlib.PurePosixPath
    E["threading.Lock"] = lambda: ALock("Lock")
    E["threading.RLock"] = lambda: ALock("RLock", reentrant=True)
    E["threading.local"] = AThreadLocal
    E["multiprocessing.Lock"] = lambda: ALock("Lock")
    E["sys.byteorder"] = "little"
    E["sys.maxsize"] = 2 ** 63 - 1
    E["sys.version_info"] = (3, 12, 3, "final", 0)
    E["sys.platform"] = "linux"
    E["os.PathLike"] = __import__("os").PathLike
    E["os.fspath"] = lambda x: x if isinstance(x, str) else str(x)
    E["os.sep"] = "/"
    E["os.linesep"] = "\n"
    E["os.path.join"] = ext("os.path.join")
    E["math.inf"] = math.inf

    def exc_info():
        if not p.handled:
            return (None, None, None)
        e = p.handled[-1]
        return (type(e), e, e.__traceback__)
    E["sys.exc_info"] = exc_info
    E["sys.exception"] = lambda: p.handled[-1] if p.handled else None

    def set_thread(obj):
        return obj
    E["concurrent.futures.Future"] = AFuture
    E["tqdm.tqdm"] = ext("tqdm.tqdm")
    E["types.SimpleNamespace"] = types.SimpleNamespace

    # functools caches are abstract state
    def cache(fn):
        return CachedFn(p, fn)

    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize) and not isinstance(maxsize, (int, type(None))):
            return CachedFn(p, maxsize)
        return lambda fn: CachedFn(p, fn)
    INTERNAL = {"prog", "node", "module", "scope", "defaults", "kwdefaults", "cell", "__name__", "__qualname__", "__module__", "__annotations__",
                "__doc__", "__globals__", "__defaults__", "__kwdefaults__", "__type_params__"}

    def update_wrapper(wrapper, wrapped, assigned=functools.WRAPPER_ASSIGNMENTS, updated=functools.WRAPPER_UPDATES):
        if type(wrapper) is not Fn:
            return functools.update_wrapper(wrapper, wrapped, assigned, ())
        for a in assigned:
            try:
                setattr(wrapper, a, getattr(wrapped, a))
            except AttributeError:
                pass
        src = getattr(wrapped, "__func__", wrapped)
        for k, v in getattr(src, "__dict__", {}).items():
            if not (type(src) is Fn and k in INTERNAL):
                wrapper.__dict__[k] = v
        wrapper.__wrapped__ = wrapped
        return wrapper
    E["functools.update_wrapper"] = update_wrapper
    E["functools.wraps"] = lambda wrapped, assigned=functools.WRAPPER_ASSIGNMENTS, updated=functools.WRAPPER_UPDATES: (
        lambda f: update_wrapper(f, wrapped, assigned, updated))
    E["functools.cache"] = cache
    E["functools.lru_cache"] = lru_cache
    E["inspect.isfunction"] = lambda f: type(f) is Fn or inspect.isfunction(f)
    E["inspect.isroutine"] = lambda f: type(f) is Fn or inspect.isroutine(f)
    E["inspect.isgeneratorfunction"] = lambda f: type(f) is Fn and __import__("sa.engine", fromlist=["x"]).fn_info(f.node).is_gen
    E["types.FunctionType"] = Fn
    E["types.LambdaType"] = Fn
    E["types.GeneratorType"] = Gen

    # ---- builtins -------------------------------------------------------------
    b = dict(vars(builtins))
    for n in ("open", "print", "input", "exec", "eval", "compile", "__import__", "breakpoint", "exit", "quit", "help"):
        b[n] = ext(f"builtins.{n}")
    p.builtins = b
    O = p.overrides = {}

    def ov(f):
        def d(h):
            O[id(f)] = h
            return h
        return d

    @ov(isinstance)
    def _isinstance(p, a, k):
        x, t = a
        if is_term(t) or isinstance(t, tuple) and any(is_term(e) for e in t):
            if is_term(x):
                return p.term_call(ext("builtins.isinstance"), a, k)
            ts = t if isinstance(t, tuple) else (t,)
            if any(not is_term(e) and isinstance(x, e) for e in ts):
                return True
            return isinstance(x, tuple(p.opaque_base(e) for e in ts if is_term(e)))
        if is_term(x):
            if x._op == "ext" and not isinstance(x._ty, type):
                return t is type and x._args[0].rsplit(".", 1)[-1][:1].isupper()
            if isinstance(x._ty, type):
                return isinstance(x, t)
            for h in p.isinstance_hooks:
                r = h(p, x, t)
                if r is not None:
                    return r
            return Term("isinstance", x, t, ty=bool)
        return isinstance(x, t)

    p.isinstance_hooks = ()

    @ov(type)
    def _type(p, a, k):
        if len(a) == 1:
            x = a[0]
            if is_term(x):
                return x._ty if isinstance(x._ty, type) else Term("typeof", x)
            return type(x)
        return p.make_class(a[0], a[1], dict(a[2]), k)

    @ov(issubclass)
    def _issubclass(p, a, k):
        if is_term(a[0]) or is_term(a[1]):
            return Term("issubclass", *a, ty=bool)
        return issubclass(*a)

    @ov(getattr)
    def _getattr(p, a, k):
        if len(a) == 3 or len(a) == 2:
            o, n = a[0], a[1]
            if is_term(n):
                return p.term_call(ext("builtins.getattr"), a, k)
            try:
                return p.getattr(o, n)
            except AttributeError:
                if len(a) == 3:
                    return a[2]
                raise
        return getattr(*a)

    @ov(hasattr)
    def _hasattr(p, a, k):
        if is_term(a[0]):
            if a[0]._op == "ext":
                return True
            return Term("hasattr", *a, ty=bool)
        try:
            p.getattr(a[0], a[1])
            return True
        except AttributeError:
            return False

    @ov(setattr)
    def _setattr(p, a, k):
        p.setattr(*a)

    @ov(delattr)
    def _delattr(p, a, k):
        p.touch(a[0])
        p.emit("delattr", obj=a[0], name=a[1])
        delattr(*a)

    @ov(object.__setattr__)
    def _osetattr(p, a, k):
        p.setattr(*a)

    @ov(len)
    def _len(p, a, k):
        x = a[0]
        if is_term(x):
            for h in p.len_hooks:
                r = h(p, x)
                if r is not None:
                    return r
            return Term("len", x, ty=int)
        m = getattr(type(x), "__len__", None)
        if type(m) is Fn:
            return p.call(m, (x,), {})
        for h in p.len_hooks:
            r = h(p, x)
            if r is not None:
                return r
        return len(x)

    p.len_hooks = ()

    @ov(str)
    def _str(p, a, k):
        if len(a) == 1 and not k:
            if is_term(a[0]):
                return p.str_of(a[0])
            return str(a[0])
        if contains_term(a):
            return p.term_call(ext("builtins.str"), a, k)
        return str(*a, **k)

    @ov(repr)
    def _repr(p, a, k):
        if contains_term(a):
            return Term("repr", a[0], ty=str)
        return repr(*a)

    @ov(bool)
    def _bool(p, a, k):
        if a and is_term(a[0]):
            x = a[0]
            if x._ty is bool:
                return x
            return p.truth(x)
        return bool(*a)

    def num(f, ty):
        @ov(f)
        def h(p, a, k):
            if contains_term(a):
                x = a[0]
                if len(a) == 1 and is_term(x) and x._ty is ty:
                    return x
                r = p.num_conv(f, a)
                if r is not NotImplemented:
                    return r
                return p.term_call(ext(f"builtins.{f.__name__}"), a, k)
            return f(*a, **k)
    p.num_conv = lambda f, a: NotImplemented
    num(int, int)
    num(float, float)

    @ov(range)
    def _range(p, a, k):
        if contains_term(a):
            a = tuple(a)
            if len(a) == 1:
                a = (0,) + a
            if len(a) == 2:
                a = a + (1,)
            return Term("range", *a, ty=range)
        return range(*a)

    @ov(super)
    def _super(p, a, k):
        return super(*a)

    @ov(reversed)
    def _reversed(p, a, k):
        if is_term(a[0]):
            return iter([Term("elem", Term("reversed", a[0]), i) for i, _ in enumerate(p.term_iter(a[0]))])
        return reversed(a[0])

    @ov(vars)
    def _vars(p, a, k):
        return p.getattr(a[0], "__dict__")

    @ov(all)
    def _all(p, a, k):
        for x in p.iterate(a[0]):
            if not p.cond(x):
                return False
        return True

    @ov(any)
    def _any(p, a, k):
        for x in p.iterate(a[0]):
            if p.cond(x):
                return True
        return False

    @ov(list)
    def _list(p, a, k):
        if a and is_term(a[0]):
            if p.keep_list(a[0]):
                return Term("call", ext("builtins.list"), (a[0],), (), ty=list)
        return list(*a)
    p.keep_list = lambda t: False

    @ov(bytearray)
    def _bytearray(p, a, k):
        h = p.bytearray_model
        if h is not None:
            return h(p, a)
        if contains_term(a):
            return p.term_call(ext("builtins.bytearray"), a, k)
        return bytearray(*a)
    p.bytearray_model = None

    @ov(sum)
    def _sum(p, a, k):
        acc = a[1] if len(a) > 1 else k.get("start", 0)
        for x in p.iterate(a[0]):
            acc = acc + x
        return acc

    @ov(math.prod)
    def _prod(p, a, k):
        acc = k.get("start", 1)
        for x in p.iterate(a[0]):
            acc = acc * x
        return acc

    @ov(math.ceil)
    def _ceil(p, a, k):
        if is_term(a[0]) and a[0]._ty is int:
            return a[0]
        return p.call_pure(math.ceil, a, k)

    @ov(functools.reduce)
    def _reduce(p, a, k):
        it = p.iterate(a[1])
        if len(a) > 2:
            acc = a[2]
        else:
            try:
                acc = next(it)
            except StopIteration:
                raise TypeError("reduce() of empty iterable with no initial value")
        for x in it:
            acc = p.call(a[0], (acc, x), {})
        return acc

    # ---- default models of external calls --------------------------------------
    T = p.term_models = {}

    def tm(*names):
        def d(h):
            for n in names:
                T[n] = h
            return h
        return d

    @tm("yaml.load", "yaml.safe_load", "yaml.full_load", "yaml.unsafe_load")
    def _yaml(p, a, k):
        if a and type(a[0]) is str:
            p.emit("call", name="yaml.load", recv=None, callee=ext("yaml.load"), args=a, kwargs=k, result=None)
            loader = k.get("Loader", a[1] if len(a) > 1 else None)
            return load_yaml(a[0], loader._args[0].split(".")[-1] if is_term(loader) and loader._op == "ext" else None)
        return NotImplemented

    @tm("builtins.open")
    def _open(p, a, k):
        path = a[0] if a else k.get("file")
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if isinstance(path, APath) and type(path) is not Term and str(path).startswith(str(p.root)) and mode in ("r", "rb", "rt"):
            p.emit("call", name="builtins.open", recv=None, callee=ext("builtins.open"), args=a, kwargs=k, result=None)
            import io
            return RepoFile(open(str(path), "r").read())
        return NotImplemented

    @tm("torch.is_tensor")
    def _is_tensor(p, a, k):
        return _isinstance(p, (a[0], Tensor), {})

    @tm("itertools.count")
    def _count(p, a, k):
        raise EngineError("itertools.count over unknown")

    # ---- result types -------------------------------------------------------------
    def types_of(p, f, name, recv, args):
        if f._op == "ext":
            if name.startswith("builtins."):
                n = name[9:]
                t = getattr(builtins, n, None)
                if isinstance(t, type):
                    return t
                if n in ("repr", "ascii", "chr", "format"):
                    return str
                if n in ("ord", "hash", "id", "round"):
                    return int
                if n in ("isinstance", "issubclass", "hasattr", "callable", "all", "any"):
                    return bool
                return None
            if name in ("torch.zeros", "torch.stack", "torch.frombuffer"):
                return Tensor
            if name.startswith("torch."):
                leaf = name.split(".")[-1]
                if name.startswith("torch.cuda.is_") or leaf in ("is_floating_point", "is_complex", "allclose", "equal"):
                    return bool
                if leaf in ("svd", "qr", "eigh", "topk", "sort", "max_", "slogdet", "svd_lowrank"):
                    return None
                if leaf[:1].isupper() or name.startswith("torch.cuda.") or leaf in ("Generator", "no_grad", "manual_seed", "get_device", "compile"):
                    return None
                return Tensor
            if name.startswith("math."):
                return int if name.split(".")[-1] in ("ceil", "floor", "comb", "gcd", "isqrt", "factorial", "trunc") else float
            if name in ("os.cpu_count",):
                return int
            if name == "json.dumps":
                return str
            if name == "struct.pack":
                return bytes
            if name == "os.path.exists":
                return bool
        if f._op == "attr" and is_term(recv):
            if name in BOOL_METHODS:
                return bool
            if name in INT_METHODS:
                return int
            if recv._ty is Tensor:
                if name in ("size",):
                    return int if args else Size
                if name == "get_device":
                    return int
                if name in ("stride",):
                    return int if args else tuple
                if name in ("item", "tolist", "untyped_storage", "storage", "numpy", "type", "topk", "sort", "max", "min",
                            "mode", "svd", "kthvalue", "split", "chunk", "unbind", "__array__", "dtype"):
                    if name in ("max", "min") and not args:
                        return Tensor
                    return None
                return Tensor
            if recv._ty is str:
                if name in ("split", "rsplit", "splitlines"):
                    return list
                if name in ("find", "index", "rfind", "rindex", "count"):
                    return int
                if name == "encode":
                    return bytes
                return str
            if recv._ty is bytes and name == "decode":
                return str
        return None
    p.type_hooks = (types_of,)

    def attrs(p, t, name):
        if t._ty is Tensor:
            if name in ("shape",):
                return Term("attr", t, name, ty=Size)
            if name in ("ndim", "itemsize", "nbytes"):
                return Term("attr", t, name, ty=int)
            if name in ("T", "mT", "H", "data", "real", "imag", "grad"):
                return Term("attr", t, name, ty=Tensor)
            if name == "dtype":
                return Term("attr", t, name, ty=dtype)
            if name in ("is_cuda", "requires_grad", "is_sparse"):
                return Term("attr", t, name, ty=bool)
            if name == "device":
                return Term("attr", t, name, ty=device)
        if t._ty is dtype:
            if name == "is_floating_point":
                return Term("attr", t, name, ty=bool)
            if name == "itemsize":
                return Term("attr", t, name, ty=int)
        return NotImplemented
    p.attr_hooks = (attrs,)

    def idx(p, t, i):
        if t._op == "cat" or t._op == "repeat":
            return NotImplemented
        if t._ty is Tensor:
            return Term("index", t, i, ty=Tensor)
        if t._ty is Size:
            return Term("index", t, i, ty=int if not isinstance(i, slice) else Size)
        if t._ty in (bytes, str):
            return Term("index", t, i, ty=t._ty if t._ty is str or isinstance(i, slice) else int)
        return NotImplemented
    p.index_hooks = (idx,)


class AFuture:
    """concurrent.futures.Future: a completed or failed result."""

    def __init__(self):
        self._r, self._e, self.done_, self.cancelled_ = None, None, False, False

    def set_result(self, r):
        self._r, self.done_ = r, True

    def set_exception(self, e):
        self._e, self.done_ = e, True

    def _ensure(self):
        pass

    def exception(self, timeout=None):
        self._ensure()
        return self._e

    def result(self, timeout=None):
        self._ensure()
        if self._e is not None:
            raise self._e
        return self._r

    def cancel(self):
        if self.done_:
            return False
        self.cancelled_ = True
        return True

    def cancelled(self):
        return self.cancelled_

    def done(self):
        return self.done_

    def add_done_callback(self, fn):
        fn(self)

    def __hash__(self):
        return id(self)


AFuture.__module__ = "concurrent.futures"


class RepoFile:
    """A data file of the repository, opened for reading."""

    def __init__(self, text):
        self.text = text

    def read(self, *a):
        return self.text

    def readlines(self):
        return self.text.splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


_yaml_cache = {}


def load_yaml(text, name=None):
    import yaml
    import copy
    name = name if name in ("BaseLoader", "CBaseLoader") else "CSafeLoader"
    if (name, text) not in _yaml_cache:
        loader = getattr(yaml, name, yaml.SafeLoader)
        _yaml_cache[name, text] = yaml.load(text, Loader=loader)
    return copy.deepcopy(_yaml_cache[name, text])
