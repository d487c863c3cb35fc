"""Abstract interpreter over the syntax trees of /repo.

Nothing of the repository is imported, compiled or executed: module bodies and
functions are walked as `ast` trees over abstract values.  Library leaves (torch,
files, threads, ...) are uninterpreted terms that are reported as events; a branch
on an undetermined condition splits the trace; every trace of the analysed entry
point is enumerated.
"""
import abc
import ast
import builtins
import collections
import contextlib
import copy
import dataclasses
import functools
import importlib
import inspect
import itertools
import math
import operator
import os
import pathlib
import sys
import threading
import types
import typing

from . import terms
from .terms import Term, ControlFlow, PathEnd, EngineError, is_term, contains_term, concat

sys.setrecursionlimit(20000)
threading.stack_size(64 * 1024 * 1024)

SAFE_MODULES = {"functools", "itertools", "operator", "dataclasses", "contextlib", "copy", "typing", "inspect",
                "collections", "collections.abc", "types", "abc", "heapq", "bisect", "numbers", "enum",
                "typing_extensions", "_operator", "_functools", "_collections_abc", "_collections", "_heapq", "_bisect",
                "weakref", "_weakref"}
PURE_MODULES = {"math", "re", "string", "textwrap", "struct", "json", "keyword", "unicodedata", "fractions",
                "decimal", "base64", "hashlib", "zlib", "statistics", "cmath", "difflib", "shlex", "_struct", "_json",
                "ast", "binascii", "array", "datetime", "html", "pprint", "reprlib", "graphlib"}


class Stub(types.ModuleType):
    """A library module that is not analysed; attributes are external terms."""

    def __init__(self, prog, name):
        super().__init__(name)
        self.__dict__["_prog"] = prog

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = self._prog.ext_attr(self.__name__, name)
        self.__dict__[name] = v
        return v


def ext(name, ty=None):
    return Term("ext", name, ty=ty)


class APath(pathlib.PurePosixPath):
    """pathlib.Path of the analysed program: pure, I/O methods are events."""

    def _io(self, meth, args, kwargs):
        return terms.PROG.path_io(self, meth, args, kwargs)

    def absolute(self):
        if self.is_absolute():
            return self
        return APath("/@cwd") / self

    def resolve(self, strict=False):
        return self.absolute()

    @classmethod
    def cwd(cls):
        return cls("/@cwd")


for _m in ("exists", "is_file", "is_dir", "open", "read_text", "write_text", "read_bytes", "write_bytes", "mkdir",
           "unlink", "rename", "replace", "touch", "glob", "rglob", "iterdir", "stat", "rmdir", "expanduser",
           "samefile", "chmod", "symlink_to", "hardlink_to", "is_symlink"):
    def _mk(m):
        def f(self, *a, **k):
            return self._io(m, a, k)
        f.__name__ = m
        return f
    setattr(APath, _m, _mk(_m))


class ALock:
    """threading.Lock: tracks whether it is held on the current trace."""

    def __init__(self, name="lock", reentrant=False):
        self.name, self.held, self.reentrant = name, 0, reentrant

    def acquire(self, *a, **k):
        if self.held and not self.reentrant:
            terms.PROG.emit("deadlock", obj=self)
        self.held += 1
        terms.PROG.emit("acquire", obj=self)
        return True

    def release(self):
        terms.PROG.emit("release", obj=self)
        self.held = max(0, self.held - 1)

    def locked(self):
        return bool(self.held)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()
        return False

    def __hash__(self):
        return id(self)


class Scope:
    __slots__ = ("vars", "parent", "glob", "info", "cls")

    def __init__(self, parent, glob, cls=None):
        self.vars, self.parent, self.glob, self.cls = {}, parent, glob, cls
        self.info = None


class Cell:
    __slots__ = ("cls",)

    def __init__(self):
        self.cls = None


class FnInfo:
    def __init__(self, node):
        self.is_gen = False
        self.globals, self.nonlocals, self.locals = set(), set(), set()
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self._scan(s)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]:
            self.locals.add(x.arg)
        self.locals -= self.globals | self.nonlocals

    def _scan(self, n):
        t = type(n)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self._scan(d)
            if t is not ast.ClassDef:
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    self._scan(d)
            return
        if t is ast.Lambda:
            return
        if t in (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp):
            self._scan(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    self.locals.add(w.target.id)
            return
        if t in (ast.Yield, ast.YieldFrom):
            self.is_gen = True
        elif t is ast.Global:
            self.globals.update(n.names)
        elif t is ast.Nonlocal:
            self.nonlocals.update(n.names)
        elif t is ast.Name and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif t is ast.ExceptHandler and n.name:
            self.locals.add(n.name)
        elif t in (ast.Import, ast.ImportFrom):
            for al in n.names:
                self.locals.add((al.asname or al.name).split(".")[0])
        elif t in (ast.MatchAs, ast.MatchStar) and n.name:
            self.locals.add(n.name)
        elif t is ast.MatchMapping and n.rest:
            self.locals.add(n.rest)
        for c in ast.iter_child_nodes(n):
            self._scan(c)


_info_cache = {}


def fn_info(node):
    i = _info_cache.get(id(node))
    if i is None:
        i = _info_cache[id(node)] = (FnInfo(node), node)
    return i[0]


class Fn:
    """A function of the analysed program (a closure over an abstract scope)."""

    def __init__(self, prog, node, module, scope, defaults, kwdefaults, annotations, qualname, cell):
        self.prog, self.node, self.module, self.scope = prog, node, module, scope
        self.defaults, self.kwdefaults, self.cell = defaults, kwdefaults, cell
        self.__name__ = getattr(node, "name", "<lambda>")
        self.__qualname__ = qualname
        self.__module__ = module.__name__
        self.__annotations__ = annotations
        self.__doc__ = ast.get_docstring(node) if not isinstance(node, ast.Lambda) else None
        self.__globals__ = module.__dict__
        self.__defaults__ = tuple(defaults) or None
        self.__kwdefaults__ = dict(kwdefaults) or None
        self.__type_params__ = ()

    @property
    def __signature__(self):
        P = inspect.Parameter
        a = self.node.args
        ps = []
        pos = a.posonlyargs + a.args
        nd = len(pos) - len(self.defaults)
        for i, x in enumerate(pos):
            ps.append(P(x.arg, P.POSITIONAL_ONLY if i < len(a.posonlyargs) else P.POSITIONAL_OR_KEYWORD,
                        default=self.defaults[i - nd] if i >= nd else P.empty,
                        annotation=self.__annotations__.get(x.arg, P.empty)))
        if a.vararg:
            ps.append(P(a.vararg.arg, P.VAR_POSITIONAL, annotation=self.__annotations__.get(a.vararg.arg, P.empty)))
        for x in a.kwonlyargs:
            ps.append(P(x.arg, P.KEYWORD_ONLY, default=self.kwdefaults.get(x.arg, P.empty),
                        annotation=self.__annotations__.get(x.arg, P.empty)))
        if a.kwarg:
            ps.append(P(a.kwarg.arg, P.VAR_KEYWORD, annotation=self.__annotations__.get(a.kwarg.arg, P.empty)))
        return inspect.Signature(ps, return_annotation=self.__annotations__.get("return", P.empty))

    @property
    def __code__(self):
        return types.SimpleNamespace(co_name=self.__name__, co_filename=self.module.__file__,
                                     co_firstlineno=self.node.lineno, co_flags=0,
                                     co_varnames=tuple(x.arg for x in self.node.args.posonlyargs + self.node.args.args),
                                     co_argcount=len(self.node.args.posonlyargs + self.node.args.args))

    def __repr__(self):
        return f"<function {self.__module__}.{self.__qualname__}>"

    def __get__(self, obj, owner=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *args, **kwargs):
        return self.prog.call_fn(self, args, kwargs)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class CachedFn:
    """functools.cache / lru_cache: the cache is abstract state, undone after a trace."""

    def __init__(self, prog, fn):
        self.prog, self.fn, self.cache = prog, fn, {}
        functools.update_wrapper(self, fn)

    def __get__(self, obj, owner=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *a, **k):
        key = (a, tuple(sorted(k.items())))
        try:
            if key in self.cache:
                return self.cache[key]
        except TypeError:
            raise
        v = self.fn(*a, **k)
        self.prog.touch(self.cache)
        self.cache[key] = v
        return v

    def cache_clear(self):
        self.prog.touch(self.cache)
        self.cache.clear()


class Gen(collections.abc.Generator):
    """A generator of the analysed program, run as a coroutine (hand-off thread)."""

    def __init__(self, prog, run, name):
        self.prog, self.run, self.__name__, self.__qualname__ = prog, run, name, name
        self.state = "new"
        self.thread = None
        self.inbox = self.outbox = None
        self.segment = []
        prog.live_gens.append(self)

    def _switch(self, msg):
        prog = self.prog
        if self.state == "running":
            raise ValueError("generator already executing")
        self.inbox = msg
        base = prog.stack
        prog.stack = base + self.segment
        depth = len(base)
        prev, prog.cur_gen = prog.cur_gen, self
        first = self.state == "new"
        self.state = "running"
        if first:
            self.ev_in, self.ev_out = threading.Semaphore(0), threading.Semaphore(0)
            self.thread = threading.Thread(target=self._main, daemon=True)
            self.thread.start()
        else:
            self.ev_in.release()
        self.ev_out.acquire()
        prog.cur_gen = prev
        self.segment = prog.stack[depth:]
        prog.stack = base
        kind, val = self.outbox
        self.outbox = None
        if kind == "yield":
            self.state = "suspended"
            return val
        self.state = "done"
        if kind == "return":
            raise StopIteration(val)
        raise val

    def _main(self):
        try:
            if self.inbox[0] == "throw":
                raise self.inbox[1]
            v = self.run(self)
            self.outbox = ("return", v)
        except BaseException as e:
            if isinstance(e, StopIteration):
                e2 = RuntimeError("generator raised StopIteration")
                e2.__cause__ = e
                e = e2
            self.outbox = ("raise", e)
        self.ev_out.release()

    def do_yield(self, v):
        self.outbox = ("yield", v)
        self.ev_out.release()
        self.ev_in.acquire()
        kind, val = self.inbox
        if kind == "throw":
            raise val
        return val

    def send(self, value):
        if self.state == "done":
            raise StopIteration
        return self._switch(("send", value))

    def __next__(self):
        return self.send(None)

    def throw(self, typ, val=None, tb=None):
        if val is None and isinstance(typ, BaseException):
            val = typ
        elif val is None:
            val = typ()
        if self.state == "done":
            raise val
        if self.state == "new":
            self.state = "done"
            raise val
        return self._switch(("throw", val))

    def close(self):
        if self.state in ("new", "done"):
            self.state = "done"
            return
        try:
            self._switch(("throw", GeneratorExit()))
        except (GeneratorExit, StopIteration):
            return
        raise RuntimeError("generator ignored GeneratorExit")

    def kill(self):
        if self.state == "suspended":
            try:
                self._switch(("throw", PathEnd("killed")))
            except BaseException:
                pass
        self.state = "done"

    def __hash__(self):
        return id(self)


class Event:
    __slots__ = ("kind", "loc", "fn", "stack", "d", "locks", "idx")

    def __init__(self, kind, loc, fn, stack, d, idx):
        self.kind, self.loc, self.fn, self.stack, self.d, self.idx = kind, loc, fn, stack, d, idx

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f"{self.kind}@{self.loc} {self.fn} { {k: terms.show(v) if not isinstance(v, dict) else v for k, v in self.d.items()} }"


class Path:
    """Outcome of one trace."""

    def __init__(self, kind, value, events, choices, assumptions):
        self.kind, self.value, self.events, self.choices, self.assumptions = kind, value, events, choices, assumptions

    def describe(self):
        return "; ".join(f"{c}={v}" for c, v in self.choices)


BRK, CONT = ("break",), ("continue",)

BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul,
          ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
          ast.RShift: operator.rshift}
IBINOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
           ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow,
           ast.MatMult: operator.imatmul, ast.BitAnd: operator.iand, ast.BitOr: operator.ior, ast.BitXor: operator.ixor,
           ast.LShift: operator.ilshift, ast.RShift: operator.irshift}
OPSYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
         ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}


class Program:
    def __init__(self, root="/repo", package="sd_mecha"):
        terms.PROG = self
        self.root, self.package = pathlib.Path(root), package
        self.modules = {}
        self.stubs = {}
        self.loading = []
        self.stack = []              # frames: [fn_qualname, module, node]
        self.cur_gen = None
        self.live_gens = []
        self.events = []
        self.undo = None
        self.assumptions = {}
        self.trace, self.prefix = [], []
        self.recording = False
        self.fn_watch = []           # f(fn) for every function created
        self.call_hooks = []         # f(prog, callee_name, recv, args, kwargs) -> value | NotImplemented
        self.fn_hooks = {}           # qualname -> f(prog, fn, args, kwargs) -> value | NotImplemented
        self.ext_values = {}         # dotted external name -> value
        self.native_models = {}      # (type, classmethod name) -> handler
        self.watch_attr = None       # f(obj, name) -> bool : emit getattr events
        self.loop_bound = 2
        self.max_depth = 220
        self.steps = 0
        self.step_limit = 40_000_000
        self.uids = itertools.count()
        self.functions_seen = set()
        self.trees = {}
        self.handled = []
        self.impure = set()
        self.max_paths_hit = False
        from . import models
        models.install(self)

    # ------------------------------------------------------------------ modules
    def module_path(self, name):
        p = self.root / pathlib.Path(*name.split("."))
        if (p / "__init__.py").is_file():
            return p / "__init__.py", True
        if p.with_suffix(".py").is_file():
            return p.with_suffix(".py"), False
        return None, False

    def is_repo_module(self, name):
        return name == self.package or name.startswith(self.package + ".")

    def tree(self, path):
        k = str(path)
        if k not in self.trees:
            self.trees[k] = ast.parse(path.read_text(), filename=k)
        return self.trees[k]

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if not self.is_repo_module(name):
            return self.external_module(name)
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = self.module_path(name)
        if path is None and (self.root / pathlib.Path(*name.split("."))).is_dir():
            mod = types.ModuleType(name)            # namespace package
            mod.__path__ = [str(self.root / pathlib.Path(*name.split(".")))]
            mod.__package__ = name
            self.modules[name] = mod
            setattr(self.modules[parent], leaf, mod)
            return mod
        if path is None:
            raise ModuleNotFoundError(f"No module named '{name}'", name=name)
        mod = types.ModuleType(name)
        mod.__file__ = str(path)
        mod.__package__ = name if is_pkg else parent
        if is_pkg:
            mod.__path__ = [str(path.parent)]
        mod.__dict__["__builtins__"] = {}
        mod.__dict__.pop("__spec__", None)
        mod.__dict__.pop("__loader__", None)
        mod.__dict__["__annotations__"] = {}
        self.modules[name] = mod
        tree = self.tree(path)
        scope = Scope(None, mod)
        scope.vars = mod.__dict__
        self.stack.append(["<module>", mod, tree])
        try:
            r = self.block(tree.body, scope)
        except ControlFlow:
            raise
        except BaseException:
            del self.modules[name]
            raise
        finally:
            self.stack.pop()
        if parent:
            setattr(self.modules[parent], leaf, mod)
        return mod

    def source(self, name, text):
        """A harness module, interpreted like a repository module."""
        mod = types.ModuleType(name)
        mod.__file__, mod.__package__ = f"<{name}>", ""
        mod.__dict__["__builtins__"] = {}
        mod.__dict__["__annotations__"] = {}
        tree = ast.parse(text)
        scope = Scope(None, mod)
        scope.vars = mod.__dict__
        self.modules[name] = mod
        self.stack.append(["<module>", mod, tree])
        try:
            self.block(tree.body, scope)
        finally:
            self.stack.pop()
        return mod

    def external_module(self, name):
        if name in self.stubs:
            return self.stubs[name]
        top = name.split(".")[0]
        if name in SAFE_MODULES or name in PURE_MODULES:
            base = importlib.import_module(name)
            m = types.ModuleType(name)
            m.__dict__.update({k: v for k, v in base.__dict__.items() if not k.startswith("__")})
            for k in list(m.__dict__):
                full = f"{name}.{k}"
                if full in self.ext_values:
                    m.__dict__[k] = self.ext_values[full]
        else:
            m = Stub(self, name)
        self.stubs[name] = m
        if "." in name:
            parent = self.external_module(name.rpartition(".")[0])
            if isinstance(parent, Stub):
                setattr(parent, name.rpartition(".")[2], m)
        return m

    def ext_attr(self, modname, name):
        full = f"{modname}.{name}"
        if full in self.ext_values:
            v = self.ext_values[full]
            if v is AttributeError:
                raise AttributeError(f"module '{modname}' has no attribute '{name}'")
            return v
        return ext(full)

    def find(self, dotted):
        """Resolve 'pkg.mod.attr[.attr]' among loaded repo modules; None if absent."""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is not None:
                v = m
                try:
                    for p in parts[i:]:
                        v = getattr(v, p) if not isinstance(v, type) else inspect.getattr_static(v, p)
                except AttributeError:
                    return None
                return v
        return None

    # ------------------------------------------------------------------ state
    def touch(self, obj):
        if self.undo is None or obj is None or type(obj) in (Term, str, int, float, tuple, bool):
            return
        k = id(obj)
        if k in self.undo:
            return
        if isinstance(obj, (list, bytearray)):
            snap = list(obj) if isinstance(obj, list) else bytes(obj)
        elif isinstance(obj, dict):
            snap = list(dict.items(obj))
        elif isinstance(obj, (set, collections.deque)):
            snap = list(obj)
        else:
            snap = None
        d = None
        if isinstance(obj, type):
            d = dict(obj.__dict__)
        elif hasattr(type(obj), "__dict__") or True:
            try:
                d = dict(object.__getattribute__(obj, "__dict__"))
            except Exception:
                d = None
        self.undo[k] = (obj, snap, d)

    def restore(self):
        for obj, snap, d in list(self.undo.values()):
            if isinstance(obj, list):
                obj[:] = snap
            elif isinstance(obj, bytearray):
                obj[:] = snap
            elif isinstance(obj, dict):
                dict.clear(obj)
                for k, v in snap:
                    dict.__setitem__(obj, k, v)
                if isinstance(obj, collections.OrderedDict):
                    collections.OrderedDict.clear(obj)
                    for k, v in snap:
                        collections.OrderedDict.__setitem__(obj, k, v)
            elif isinstance(obj, set):
                obj.clear()
                obj.update(snap)
            elif isinstance(obj, collections.deque):
                obj.clear()
                obj.extend(snap)
            if d is not None:
                if isinstance(obj, type):
                    for k in list(obj.__dict__):
                        if k not in d:
                            type.__delattr__(obj, k)
                    for k, v in d.items():
                        if obj.__dict__.get(k) is not v:
                            try:
                                type.__setattr__(obj, k, v)
                            except (AttributeError, TypeError):
                                pass
                else:
                    dd = object.__getattribute__(obj, "__dict__")
                    dd.clear()
                    dd.update(d)
        self.undo = {}

    def loc(self, node=None):
        if node is None:
            for f in reversed(self.stack):
                if f[2] is not None:
                    node = f[2]
                    mod = f[1]
                    break
            else:
                return "?"
        else:
            mod = self.stack[-1][1] if self.stack else None
        rel = os.path.relpath(mod.__file__, self.root) if mod is not None else "?"
        return f"{rel}:{getattr(node, 'lineno', 0)}"

    def cur_fn(self):
        return self.stack[-1][0] if self.stack else "?"

    def emit(self, kind, **d):
        e = Event(kind, self.loc(), self.cur_fn(), [f"{f[1].__name__}.{f[0]}" for f in self.stack], d, len(self.events))
        if self.recording:
            self.events.append(e)
        return e

    def uid(self):
        return next(self.uids)

    # ------------------------------------------------------------------ choices
    def choose(self, key, n, label=None):
        """Split the trace n ways on `key` (memoised: same key, same answer on one trace)."""
        if key is not None and key in self.assumptions:
            return self.assumptions[key]
        if not self.recording:
            raise EngineError(f"undetermined condition outside an analysed entry point at {self.loc()}: {label or key}")
        i = len(self.trace)
        v = self.prefix[i][0] if i < len(self.prefix) else 0
        self.trace.append((v, n, label if label is not None else key, self.loc()))
        if key is not None:
            self.assumptions[key] = v
        return v

    def truth(self, t):
        if type(t) is not Term:
            return bool(t)
        if t._op == "not":
            return not self.truth(t._args[0])
        if t._op in ("and", "or") and False:
            pass
        if t._op == "ext":
            return True
        if t._op == "atom" and t._ty not in (None, int, float, str, bool) and not isinstance(t._ty, str):
            if not (isinstance(t._ty, type) and hasattr(t._ty, "__len__")):
                return True
        r = self.decide(t)
        if r is not None:
            return r
        if t._op not in ("eq0", "lt0", "eq", "lt", "is", "in", "isinstance") and terms.numeric(t):
            c = terms.eq(t, 0)
            return not (self.truth(c) if type(c) is Term else c)
        if t._op == "call" and t._args[0] is ext("builtins.bool") and len(t._args[1]) == 1:
            return self.truth(t._args[1][0])
        return self.choose(t, 2, t) == 0

    def decide(self, t):
        """hook: checks may decide conditions from facts they know"""
        for h in self.decide_hooks:
            r = h(self, t)
            if r is not None:
                return r
        return None

    decide_hooks = ()

    def eq_facts(self, d):
        return None

    def lt_facts(self, d):
        return None

    def str_eq(self, a, b):
        from . import strdom
        return strdom.str_eq(self, a, b)

    def term_binop(self, op, a, b):
        return None

    # ------------------------------------------------------------------ exploration
    def explore(self, entry, max_paths=4000):
        """Enumerate every trace of `entry()`."""
        prefix = []
        results = []
        while True:
            self.undo = {}
            self.prefix, self.trace, self.assumptions, self.events = prefix, [], {}, []
            self.uids = itertools.count()
            self.stack, self.handled = [], []
            self.cur_gen = None
            self.recording = True
            try:
                v = entry()
                res = ("return", v)
            except PathEnd as e:
                res = ("cut", str(e))
            except EngineError:
                raise
            except ControlFlow as e:
                raise EngineError(f"stray control signal {e!r}")
            except RecursionError as e:
                raise EngineError("analysis recursion limit")
            except BaseException as e:
                res = ("raise", e)
            finally:
                evs = self.events
                ch = [(terms.show(l), v, where) for v, n, l, where in self.trace]
                asm = dict(self.assumptions)
                for g in self.live_gens:
                    g.kill()
                self.live_gens = []
                self.recording = False
                self.restore()
                self.undo = None
            p = Path(res[0], res[1], evs, [(a, b) for a, b, _ in ch], asm)
            if res[0] == "raise" and isinstance(res[1], EngineError):
                raise res[1]
            yield p
            t = self.trace
            while t and t[-1][0] + 1 >= t[-1][1]:
                t.pop()
            if not t:
                return
            prefix = t[:-1] + [(t[-1][0] + 1,) + t[-1][1:]]
            results.append(1)
            if len(results) >= max_paths:
                raise EngineError(f"more than {max_paths} traces")

    def run(self, entry, max_paths=4000):
        return list(self.explore(entry, max_paths))

    def quiet(self, fn):
        """Evaluate determined code outside exploration (module loading, tables)."""
        return fn()

    # ------------------------------------------------------------------ names
    def mangle(self, name, scope):
        if name.startswith("__") and not name.endswith("__"):
            s = scope
            while s is not None:
                if s.cls is not None:
                    c = s.cls[0].lstrip("_")
                    return f"_{c}{name}" if c else name
                s = s.parent
        return name

    def lookup(self, name, scope):
        s = scope
        while s is not None and s.parent is not None:
            if s.cls is not None and s is not scope:
                s = s.parent                # class scopes are invisible to nested scopes
                continue
            if s.info is not None and name in s.info.globals:
                break
            if name in s.vars:
                return s.vars[name]
            if s.info is not None and name in s.info.locals:
                raise UnboundLocalError(f"cannot access local variable '{name}'")
            s = s.parent
        g = scope.glob.__dict__
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        raise NameError(f"name '{name}' is not defined", name=name)

    def store(self, name, value, scope):
        s = scope
        if s.info is not None:
            if name in s.info.globals:
                self.touch(scope.glob.__dict__)
                self.emit("setglobal", module=scope.glob.__name__, name=name, value=value)
                scope.glob.__dict__[name] = value
                return
            if name in s.info.nonlocals:
                p = s.parent
                while p is not None:
                    if p.cls is None and name in p.vars:
                        self.touch(p.vars)
                        p.vars[name] = value
                        return
                    p = p.parent
        if s.vars is scope.glob.__dict__:
            self.touch(s.vars)
        s.vars[name] = value

    # ------------------------------------------------------------------ calls
    def call_fn(self, fn, args, kwargs):
        node = fn.node
        name = f"{fn.__module__}.{fn.__qualname__}"
        h = self.fn_hooks.get(name)
        if h is not None:
            r = h(self, fn, args, kwargs)
            if r is not NotImplemented:
                return r
        if len(self.stack) > self.max_depth:
            raise EngineError(f"inlining depth exceeded in {name}")
        self.functions_seen.add(name)
        info = fn_info(node)
        sc = Scope(fn.scope, fn.module)
        sc.info = info
        self.bind(fn, sc, args, kwargs)
        if isinstance(node, ast.Lambda):
            self.stack.append([fn.__qualname__, fn.module, node])
            try:
                return self.ev(node.body, sc)
            finally:
                self.stack.pop()
        if info.is_gen:
            def run(gen):
                self.stack.append([fn.__qualname__, fn.module, node])
                try:
                    r = self.block(node.body, sc)
                finally:
                    self.stack.pop()
                return r[1] if r and r[0] == "return" else None
            return Gen(self, run, fn.__name__)
        self.stack.append([fn.__qualname__, fn.module, node])
        try:
            r = self.block(node.body, sc)
        finally:
            self.stack.pop()
        if r is not None:
            return r[1]
        return None

    def bind(self, fn, sc, args, kwargs):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nposonly = len(a.posonlyargs)
        if fn.cell is not None:
            pos = [self.mangle(p, sc.parent) for p in pos] if any(p.startswith("__") for p in pos) else pos
        v = sc.vars
        if len(args) > len(pos) and a.vararg is None:
            raise TypeError(f"{fn.__qualname__}() takes {len(pos)} positional arguments but {len(args)} were given")
        for n, x in zip(pos, args):
            v[n] = x
        if a.vararg:
            v[a.vararg.arg] = tuple(args[len(pos):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, x in kwargs.items():
            if k in pos[nposonly:] or k in kwonly:
                if k in v:
                    raise TypeError(f"{fn.__qualname__}() got multiple values for argument '{k}'")
                v[k] = x
            elif a.kwarg:
                extra[k] = x
            else:
                raise TypeError(f"{fn.__qualname__}() got an unexpected keyword argument '{k}'")
        if a.kwarg:
            v[a.kwarg.arg] = extra
        nd = len(pos) - len(fn.defaults)
        for i, n in enumerate(pos):
            if n not in v:
                if i >= nd:
                    v[n] = fn.defaults[i - nd]
                else:
                    raise TypeError(f"{fn.__qualname__}() missing 1 required positional argument: '{n}'")
        for n in kwonly:
            if n not in v:
                if n in fn.kwdefaults:
                    v[n] = fn.kwdefaults[n]
                else:
                    raise TypeError(f"{fn.__qualname__}() missing 1 required keyword-only argument: '{n}'")

    def native_name(self, f):
        mod = getattr(f, "__module__", None)
        slf = getattr(f, "__self__", None)
        if isinstance(f, type):
            return f"{f.__module__}.{f.__qualname__}"
        if slf is not None and not isinstance(slf, types.ModuleType):
            t = slf if isinstance(slf, type) else type(slf)
            return f"{t.__module__}.{t.__qualname__}.{getattr(f, '__name__', '?')}"
        return f"{mod}.{getattr(f, '__qualname__', getattr(f, '__name__', '?'))}"

    def call(self, f, args, kwargs, node=None):
        """Call any callable value."""
        tf = type(f)
        if tf is Fn:
            return self.call_fn(f, args, kwargs)
        if tf is Term:
            return self.term_call(f, args, kwargs)
        if tf is types.MethodType:
            g = f.__func__
            if type(g) is Fn:
                return self.call_fn(g, (f.__self__,) + tuple(args), kwargs)
            return f(*args, **kwargs)
        if tf is functools.partial:
            return self.call(f.func, tuple(f.args) + tuple(args), {**f.keywords, **kwargs})
        o = self.overrides.get(id(f))
        if o is not None:
            return o(self, args, kwargs)
        if isinstance(f, type):
            return self.call_type(f, args, kwargs)
        slf = getattr(f, "__self__", None)
        if tf in (types.BuiltinFunctionType, types.MethodWrapperType, types.MethodDescriptorType,
                  types.WrapperDescriptorType, types.ClassMethodDescriptorType):
            if slf is None or isinstance(slf, types.ModuleType):
                if slf is None and tf is not types.BuiltinFunctionType and args:
                    return self.call_native_method(f, args[0], f.__name__, args[1:], kwargs, unbound=True)
                mod = getattr(f, "__module__", None) or "builtins"
                if mod in SAFE_MODULES:
                    for x in args:
                        self.touch_mut(x, f)
                    return f(*args, **kwargs)
                if mod == "builtins" and f.__name__ in SAFE_BUILTINS:
                    return f(*args, **kwargs)
                return self.call_pure(f, args, kwargs)
            return self.call_native_method(f, slf, f.__name__, args, kwargs)
        if tf is types.FunctionType:
            mod = f.__module__
            if mod in SAFE_MODULES or mod is None or mod.startswith(("sa.", "verif", "__")) or mod.split(".")[0] == "sa":
                return f(*args, **kwargs)
            if mod.split(".")[0] in PURE_MODULES:
                return self.call_pure(f, args, kwargs)
            return f(*args, **kwargs)
        if tf.__module__.split(".")[0] == "sa" or hasattr(tf, "__call__"):
            return f(*args, **kwargs)
        raise TypeError(f"'{tf.__name__}' object is not callable")

    def touch_mut(self, x, f):
        if isinstance(x, (list, dict, set, collections.deque)) and f.__module__ in ("_heapq", "heapq", "_bisect", "bisect", "_operator", "operator"):
            self.touch(x)
            self.emit("mutcall", obj=x, method=f.__name__, args=())

    def call_pure(self, f, args, kwargs):
        if contains_term(args) or contains_term(kwargs):
            name = self.native_name(f)
            return self.term_call(ext(name), args, kwargs)
        return f(*args, **kwargs)

    def call_type(self, cls, args, kwargs):
        mod = cls.__module__
        if mod == "builtins":
            if cls in (int, float, str, bool, bytes, bytearray, complex, range, memoryview) and (contains_term(args) or contains_term(kwargs)):
                return self.term_call(ext(f"builtins.{cls.__name__}"), args, kwargs)
            if cls is type and len(args) == 3:
                return self.make_class(args[0], args[1], dict(args[2]))
            return cls(*args, **kwargs)
        if mod.split(".")[0] in PURE_MODULES and mod not in SAFE_MODULES:
            if contains_term(args) or contains_term(kwargs):
                return self.term_call(ext(f"{mod}.{cls.__qualname__}"), args, kwargs)
        return cls(*args, **kwargs)

    MUTATORS = {
        list: {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "__setitem__", "__delitem__", "__iadd__"},
        dict: {"update", "pop", "popitem", "clear", "setdefault", "__setitem__", "__delitem__", "move_to_end", "__ior__"},
        set: {"add", "update", "remove", "discard", "pop", "clear", "difference_update", "intersection_update", "symmetric_difference_update"},
        collections.deque: {"append", "appendleft", "extend", "extendleft", "pop", "popleft", "clear", "remove", "rotate", "insert", "reverse"},
        bytearray: {"append", "extend", "insert", "pop", "clear", "remove", "reverse"},
    }

    def call_native_method(self, f, slf, name, args, kwargs, unbound=False):
        if isinstance(slf, type) and (slf, name) in self.native_models:
            r = self.native_models[slf, name](self, args, kwargs)
            if r is not NotImplemented:
                return r
        for base, ms in self.MUTATORS.items():
            if isinstance(slf, base) and type(slf) is not Term:
                if name in ms:
                    self.touch(slf)
                    self.emit("mutcall", obj=slf, method=name, args=args)
                if unbound:
                    return f(slf, *args, **kwargs)
                return f(*args, **kwargs)
        if isinstance(slf, (str, bytes)) and type(slf) is not Term:
            if name == "join" and args and type(slf) is str:
                items = list(self.iterate(args[0]))
                if any(type(i) is Term for i in items):
                    from . import strdom
                    return strdom.join(self, slf, items)
                return slf.join(items)
            if name == "format" and (contains_term(args) or contains_term(kwargs)):
                from . import strdom
                return strdom.fmt(self, slf, args, kwargs)
            if contains_term(args) or contains_term(kwargs):
                from . import strdom
                r = strdom.method(self, slf, name, args, kwargs)
                if r is not NotImplemented:
                    return r
                return self.term_call(Term("attr", Term("const", slf, ty=type(slf)), name), args, kwargs)
        elif isinstance(slf, (int, float)) and type(slf) is not Term and contains_term(args):
            return self.term_call(ext(f"{type(slf).__name__}.{name}"), (slf,) + tuple(args), kwargs)
        if isinstance(slf, types.GenericAlias) or True:
            return f(slf, *args, **kwargs) if unbound else f(*args, **kwargs)

    def term_call(self, f, args, kwargs):
        """Call of something outside the analysed program."""
        recv, name = None, None
        if f._op == "ext":
            name = f._args[0]
        elif f._op == "attr":
            recv, name = f._args[0], f._args[1]
        m = self.term_models.get(name) if f._op == "ext" else None
        for h in self.call_hooks:
            r = h(self, name, recv, args, kwargs)
            if r is not NotImplemented:
                return r
        if m is not None:
            r = m(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if f._op == "attr" and type(recv) is Term and recv._ty is str:
            from . import strdom
            r = strdom.method(self, recv, name, args, kwargs)
            if r is not NotImplemented:
                return r
        ty = self.result_type(f, name, recv, args)
        if (name in self.impure) or (f._op == "attr" and ("." + str(name)) in self.impure):
            v = Term("icall", f, tuple(args), tuple(kwargs.items()), self.uid(), ty=ty)
        else:
            v = Term("call", f, tuple(args), tuple(sorted(kwargs.items(), key=lambda kv: kv[0])), ty=ty)
        self.emit("call", name=name, recv=recv, callee=f, args=args, kwargs=kwargs, result=v)
        return v

    def result_type(self, f, name, recv, args):
        for h in self.type_hooks:
            r = h(self, f, name, recv, args)
            if r is not None:
                return r
        return None

    type_hooks = ()

    def term_inplace(self, sym, a, b):
        ty = a._ty
        if terms.numeric(a) or ty in (str, bytes, tuple):
            return terms.mk(sym, a, b)
        self.emit("inplace", obj=a, op=sym, value=b)
        return Term("inplace" + sym, a, b, ty=ty)

    def term_attr(self, t, name):
        for h in self.attr_hooks:
            r = h(self, t, name)
            if r is not NotImplemented:
                return r
        ty = t._ty
        if isinstance(ty, type):
            d = inspect.getattr_static(ty, name, None)
            if type(d) is Fn:
                return types.MethodType(d, t)
            if isinstance(d, property) and type(d.fget) is Fn:
                return self.call(d.fget, (t,), {})
        if t._op == "ext":
            full = f"{t._args[0]}.{name}"
            if full in self.ext_values:
                return self.ext_values[full]
            return ext(full)
        return Term("attr", t, name)

    attr_hooks = ()

    def term_setattr(self, t, name, value):
        self.emit("setattr", obj=t, name=name, value=value)

    def term_index(self, t, i):
        for h in self.index_hooks:
            r = h(self, t, i)
            if r is not NotImplemented:
                return r
        return Term("index", t, i, ty=None)

    index_hooks = ()

    def term_iter(self, t):
        for h in self.iter_hooks:
            r = h(self, t)
            if r is not NotImplemented:
                return iter(r)
        n = self.choose(("iter", t), self.loop_bound + 1, f"iterations of {terms.show(t)}")
        # zero, one or more generic elements
        return iter([Term("elem", t, i) for i in range((1, 0, 2)[n] if n < 3 else n)])

    iter_hooks = ()

    def term_enter(self, t):
        self.emit("enter", obj=t)
        return self.term_call(Term("attr", t, "__enter__"), (), {}) if self.model_ctx else Term("entered", t, ty=t._ty)

    model_ctx = False

    def term_exit(self, t, exc):
        self.emit("exit", obj=t, exc=exc)
        return False

    def iterate(self, v):
        return iter(v)

    def path_io(self, path, meth, args, kwargs):
        if meth in ("glob", "rglob", "iterdir") and str(path).startswith(str(self.root)):
            real = pathlib.Path(str(path))
            return [APath(str(p)) for p in sorted(getattr(real, meth)(*args))]
        if meth == "expanduser":
            return path
        t = Term("const", path, ty=APath)
        return self.term_call(Term("attr", t, meth), args, kwargs)

    # ------------------------------------------------------------------ attributes
    step = None                      # called before statements, reads of attributes and of items

    def getattr(self, obj, name):
        if self.step is not None:
            self.step("attribute", obj)
        if type(obj) is Term:
            if name.startswith("__"):
                if name == "__class__":
                    return obj._ty if isinstance(obj._ty, type) else Term("typeof", obj)
                if name == "__name__" and obj._op == "ext":
                    return obj._args[0].rsplit(".", 1)[-1]
                return Term("attr", obj, name)
            v = self.term_attr(obj, name)
        else:
            v = getattr(obj, name)
        if self.watch_attr is not None and self.watch_attr(obj, name):
            self.emit("getattr", obj=obj, name=name, value=v)
        return v

    def setattr(self, obj, name, value):
        if type(obj) is Term:
            self.term_setattr(obj, name, value)
            return
        self.touch(obj)
        old = MISSING
        try:
            old = object.__getattribute__(obj, "__dict__").get(name, MISSING)
        except Exception:
            pass
        self.emit("setattr", obj=obj, name=name, value=value, old=old)
        setattr(obj, name, value)

    # ------------------------------------------------------------------ expressions
    def ev(self, n, sc):
        return self.EV[type(n)](self, n, sc)

    def ev_Constant(self, n, sc):
        return n.value

    def ev_Name(self, n, sc):
        name = n.id
        if name.startswith("__") and not name.endswith("__"):
            name = self.mangle(name, sc)
        return self.lookup(name, sc)

    def ev_Attribute(self, n, sc):
        o = self.ev(n.value, sc)
        self.stack[-1][2] = n
        return self.getattr(o, self.mangle(n.attr, sc))

    def ev_BinOp(self, n, sc):
        a, b = self.ev(n.left, sc), self.ev(n.right, sc)
        self.stack[-1][2] = n
        if type(n.op) is ast.Mod and type(a) in (str, bytes) and contains_term(b):
            from . import strdom
            return strdom.percent(self, a, b)
        if type(n.op) is ast.Mult and (type(a) in (list, tuple) and is_term(b) or type(b) in (list, tuple) and is_term(a)):
            return Term("repeat", *((a, b) if type(a) in (list, tuple) else (b, a)), ty=type(a) if type(a) in (list, tuple) else type(b))
        if type(n.op) is ast.Add and (isinstance(a, (list, tuple)) and type(a) is not Term and is_term(b) or
                                      isinstance(b, (list, tuple)) and type(b) is not Term and is_term(a)):
            return Term("cat", a, b, ty=type(a) if type(a) is not Term else type(b))
        return BINOPS[type(n.op)](a, b)

    def ev_UnaryOp(self, n, sc):
        v = self.ev(n.operand, sc)
        if isinstance(n.op, ast.Not):
            return terms.negate(v) if type(v) is Term else not self.truth(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def ev_BoolOp(self, n, sc):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, sc)
            if i == len(n.values) - 1:
                return v
            t = self.cond(v)
            if is_and and not t:
                return False if is_term(v) and v._ty is bool else v
            if not is_and and t:
                return True if is_term(v) and v._ty is bool else v
        return v

    def cond(self, v):
        if type(v) is Term:
            return self.truth(v)
        return bool(v)

    def ev_Compare(self, n, sc):
        left = self.ev(n.left, sc)
        res = True
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(rn, sc)
            self.stack[-1][2] = n
            res = self.compare(type(op), left, right)
            if i < len(n.ops) - 1 and not self.cond(res):
                return res
            left = right
        return res

    def compare(self, op, a, b):
        if op is ast.Is:
            return self.is_(a, b)
        if op is ast.IsNot:
            return terms.negate(self.is_(a, b))
        if op is ast.In:
            return self.contains(b, a)
        if op is ast.NotIn:
            return terms.negate(self.contains(b, a))
        if is_term(a) or is_term(b):
            return {ast.Eq: terms.eq, ast.NotEq: lambda x, y: terms.negate(terms.eq(x, y)), ast.Lt: terms.lt,
                    ast.Gt: lambda x, y: terms.lt(y, x), ast.LtE: lambda x, y: terms.negate(terms.lt(y, x)),
                    ast.GtE: lambda x, y: terms.negate(terms.lt(x, y))}[op](a, b)
        f = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.Gt: operator.gt,
             ast.LtE: operator.le, ast.GtE: operator.ge}[op]
        return f(a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if is_term(a) or is_term(b):
            if is_term(a) and is_term(b):
                if a._op in terms.RIGID and b._op in terms.RIGID:
                    return False
                return Term("is", *sorted((a, b), key=lambda t: t._id), ty=bool)
            t, c = (a, b) if is_term(a) else (b, a)
            if t._op in terms.RIGID or t._op in ("concat", "poly", "entered"):
                return False
            if t._ty is not None and isinstance(t._ty, type):
                if not isinstance(c, t._ty):
                    return False
                if t._ty not in (bool,):
                    return Term("is", t, c, ty=bool)
            for h in self.is_hooks:
                r = h(self, t, c)
                if r is not None:
                    return r
            return Term("is", t, c, ty=bool)
        return a is b

    is_hooks = ()

    def contains(self, c, x):
        if is_term(c):
            if c._ty is str:
                from . import strdom
                r = strdom.contains(self, c, x)
                if r is not NotImplemented:
                    return r
            for h in self.in_hooks:
                r = h(self, c, x)
                if r is not NotImplemented:
                    return r
            return Term("in", x, c, ty=bool)
        if is_term(x):
            if isinstance(c, str):
                from . import strdom
                r = strdom.contains(self, c, x)
                if r is not NotImplemented:
                    return r
                return Term("in", x, Term("const", c, ty=str), ty=bool)
            if isinstance(c, (list, tuple, set, frozenset, dict, type({}.keys()), collections.deque)) or type(c) in (type({}.values()),):
                for e in c:
                    if e is x:
                        return True
                for e in c:
                    r = terms.eq(x, e) if not isinstance(e, (types.FunctionType,)) else False
                    if self.cond(r):
                        return True
                return False
        return x in c

    in_hooks = ()

    def ev_Call(self, n, sc):
        fnode = n.func
        f = self.ev(fnode, sc)
        args = []
        for a in n.args:
            if type(a) is ast.Starred:
                args.extend(self.iterate(self.ev(a.value, sc)))
            else:
                args.append(self.ev(a, sc))
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, sc)
            if k.arg is None:
                if is_term(v):
                    kwargs["**"] = v
                    continue
                for kk in v.keys():
                    if kk in kwargs:
                        raise TypeError(f"got multiple values for keyword argument '{kk}'")
                    kwargs[kk] = v[kk]
            else:
                if k.arg in kwargs:
                    raise TypeError(f"got multiple values for keyword argument '{k.arg}'")
                kwargs[k.arg] = v
        self.steps += 1
        if self.steps > self.step_limit:
            raise EngineError("step limit")
        self.stack[-1][2] = n
        if f is super and not args:
            return self.make_super(sc)
        if f is self.builtins["locals"]:
            return dict(sc.vars)
        if f is self.builtins["globals"]:
            return sc.glob.__dict__
        return self.call(f, tuple(args), kwargs, n)

    def make_super(self, sc):
        s = sc
        fnscope = None
        while s is not None:
            if s.cls is not None:
                cell = s.cls[1]
                break
            fnscope = s
            s = s.parent
        else:
            raise RuntimeError("super(): no arguments")
        # first argument of the method
        f = sc
        while f.parent is not None and f.parent is not s:
            f = f.parent
        first = next(iter(f.vars.values()))
        return super(cell.cls, first)

    def ev_Subscript(self, n, sc):
        o = self.ev(n.value, sc)
        i = self.ev(n.slice, sc)
        self.stack[-1][2] = n
        return self.subscript(o, i)

    def subscript(self, o, i):
        if self.step is not None:
            self.step("item", o)
        if type(o) is not Term and isinstance(o, (list, tuple)) and contains_term(i, 1):
            if is_term(i):
                for k in range(len(o)):
                    if k == len(o) - 1 or self.cond(terms.eq(i, k)):
                        return o[k]
                raise IndexError("list index out of range")
            return Term("slice", o, i, ty=type(o))
        if type(o) is str and contains_term(i, 1):
            return Term("index", Term("const", o, ty=str), i, ty=str)
        if type(o) is not Term and isinstance(o, dict) and is_term(i) and i not in o.keys():
            for k in list(o):
                if self.cond(terms.eq(i, k)):
                    return o[k]
        if type(o) is types.MappingProxyType and is_term(i):
            for k in list(o):
                if self.cond(terms.eq(i, k)):
                    return o[k]
        return o[i]

    def ev_Slice(self, n, sc):
        return slice(*(self.ev(x, sc) if x is not None else None for x in (n.lower, n.upper, n.step)))

    def elts(self, nodes, sc):
        out = []
        for e in nodes:
            if type(e) is ast.Starred:
                out.extend(self.iterate(self.ev(e.value, sc)))
            else:
                out.append(self.ev(e, sc))
        return out

    def ev_Tuple(self, n, sc):
        return tuple(self.elts(n.elts, sc))

    def ev_List(self, n, sc):
        return self.elts(n.elts, sc)

    def ev_Set(self, n, sc):
        return set(self.elts(n.elts, sc))

    def ev_Dict(self, n, sc):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.ev(v, sc)
                if is_term(m):
                    raise EngineError(f"** of unknown mapping at {self.loc(n)}")
                for kk in m.keys():
                    d[kk] = m[kk]
            else:
                kk = self.ev(k, sc)
                d[kk] = self.ev(v, sc)
        return d

    def ev_IfExp(self, n, sc):
        self.stack[-1][2] = n
        return self.ev(n.body if self.cond(self.ev(n.test, sc)) else n.orelse, sc)

    def ev_Lambda(self, n, sc):
        return self.make_fn(n, sc, sc.glob)

    def ev_NamedExpr(self, n, sc):
        v = self.ev(n.value, sc)
        s = sc
        while s.parent is not None and s.info is None and s.cls is None:
            s = s.parent
        self.store(n.target.id, v, s)
        return v

    def ev_JoinedStr(self, n, sc):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
                continue
            v = self.ev(p.value, sc)
            spec = self.ev(p.format_spec, sc) if p.format_spec is not None else ""
            if is_term(v) or is_term(spec):
                if p.conversion == -1 and spec == "" and not is_term(spec):
                    parts.append(self.str_of(v))
                else:
                    parts.append(Term("format", v, chr(p.conversion) if p.conversion != -1 else "", spec, ty=str))
                continue
            if p.conversion == 114:
                v = repr(v)
            elif p.conversion == 115:
                v = str(v)
            elif p.conversion == 97:
                v = ascii(v)
            parts.append(self.format_native(v, spec))
        return concat(*parts)

    def format_native(self, v, spec):
        r = format(v, spec)
        return r

    def str_of(self, v):
        if not is_term(v):
            return str(v)
        if v._ty is str:
            return v
        for h in self.str_hooks:
            r = h(self, v)
            if r is not NotImplemented:
                return r
        return Term("str", v, ty=str)

    str_hooks = ()

    def ev_FormattedValue(self, n, sc):
        return self.ev_JoinedStr(ast.JoinedStr(values=[n]), sc)

    def comp(self, n, sc, emit):
        def rec(gi, s):
            if gi == len(n.generators):
                emit(s)
                return
            g = n.generators[gi]
            it = self.ev(g.iter, sc if gi == 0 else s)
            for x in self.iterate(it):
                self.assign(g.target, x, s)
                if all(self.cond(self.ev(c, s)) for c in g.ifs):
                    rec(gi + 1, s)
        s = Scope(sc, sc.glob)
        s.info = None
        rec(0, s)

    def ev_ListComp(self, n, sc):
        out = []
        self.comp(n, sc, lambda s: out.append(self.ev(n.elt, s)))
        return out

    def ev_SetComp(self, n, sc):
        out = set()
        self.comp(n, sc, lambda s: out.add(self.ev(n.elt, s)))
        return out

    def ev_DictComp(self, n, sc):
        out = {}

        def e(s):
            k = self.ev(n.key, s)
            out[k] = self.ev(n.value, s)
        self.comp(n, sc, e)
        return out

    def ev_GeneratorExp(self, n, sc):
        first = self.iterate(self.ev(n.generators[0].iter, sc))
        where = list(self.stack[-1])

        def rec(gi, s):
            if gi == len(n.generators):
                yield self.ev(n.elt, s)
                return
            g = n.generators[gi]
            it = first if gi == 0 else self.iterate(self.ev(g.iter, s))
            for x in it:
                self.assign(g.target, x, s)
                if all(self.cond(self.ev(c, s)) for c in g.ifs):
                    yield from rec(gi + 1, s)

        def gen():
            s = Scope(sc, sc.glob)
            s.info = None
            it = rec(0, s)
            while True:
                self.stack.append(list(where))
                try:
                    v = next(it)
                except StopIteration:
                    return
                finally:
                    self.stack.pop()
                yield v
        return gen()

    def ev_Yield(self, n, sc):
        v = self.ev(n.value, sc) if n.value is not None else None
        return self.cur_gen.do_yield(v)

    def ev_YieldFrom(self, n, sc):
        it = self.iterate(self.ev(n.value, sc))
        g = self.cur_gen
        try:
            v = next(it)
        except StopIteration as e:
            return e.value
        while True:
            try:
                s = g.do_yield(v)
            except GeneratorExit:
                if hasattr(it, "close"):
                    it.close()
                raise
            except ControlFlow:
                raise
            except BaseException as e:
                if hasattr(it, "throw"):
                    try:
                        v = it.throw(e)
                    except StopIteration as s2:
                        return s2.value
                    continue
                raise
            try:
                v = it.send(s) if s is not None and hasattr(it, "send") else next(it)
            except StopIteration as e:
                return e.value

    def ev_Starred(self, n, sc):
        return self.ev(n.value, sc)

    def ev_Await(self, n, sc):
        raise EngineError("await")

    EV = {}

    # ------------------------------------------------------------------ functions / classes
    def make_fn(self, n, sc, mod):
        a = n.args
        defaults = [self.ev(d, sc) for d in a.defaults]
        kwd = {x.arg: self.ev(d, sc) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        ann = {}
        if not isinstance(n, ast.Lambda):
            for x in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]:
                if x.annotation is not None:
                    ann[x.arg] = self.annotation(x.annotation, sc)
            if n.returns is not None:
                ann["return"] = self.annotation(n.returns, sc)
        name = getattr(n, "name", "<lambda>")
        cell = None
        qual = name
        s = sc
        if s.cls is not None:
            cell = s.cls[1]
            qual = f"{s.cls[2]}.{name}"
        elif s.parent is not None:
            qual = f"{self.stack[-1][0]}.<locals>.{name}"
        fn = Fn(self, n, mod, sc, defaults, kwd, ann, qual, cell)
        for w in self.fn_watch:
            w(fn)
        return fn

    def annotation(self, node, sc):
        if getattr(sc.glob, "_future_ann", False):
            return ast.unparse(node)
        return self.ev(node, sc)

    def st_FunctionDef(self, n, sc):
        decs = [self.ev(d, sc) for d in n.decorator_list]
        v = self.make_fn(n, sc, sc.glob)
        for d in reversed(decs):
            self.stack[-1][2] = n
            v = self.call(d, (v,), {})
        self.store(self.mangle(n.name, sc), v, sc)

    def st_ClassDef(self, n, sc):
        decs = [self.ev(d, sc) for d in n.decorator_list]
        bases = tuple(self.elts(n.bases, sc))
        kw = {k.arg: self.ev(k.value, sc) for k in n.keywords}
        cell = Cell()
        qual = n.name
        if sc.cls is not None:
            qual = f"{sc.cls[2]}.{n.name}"
        elif sc.parent is not None:
            qual = f"{self.stack[-1][0]}.<locals>.{n.name}"
        cs = Scope(sc, sc.glob, cls=(n.name, cell, qual))
        cs.info = None
        cs.vars = {"__module__": sc.glob.__name__, "__qualname__": qual}
        doc = ast.get_docstring(n)
        if doc:
            cs.vars["__doc__"] = doc
        self.stack.append([qual, sc.glob, n])
        try:
            self.block(n.body, cs)
        finally:
            self.stack.pop()
        cls = self.make_class(n.name, bases, cs.vars, kw)
        cell.cls = cls
        for d in reversed(decs):
            cls2 = self.call(d, (cls,), {})
            cls = cls2
        self.store(n.name, cls, sc)

    def make_class(self, name, bases, ns, kw=None):
        ns = dict(ns)
        ns.setdefault("__module__", self.stack[-1][1].__name__ if self.stack else "?")
        for k in ("__init_subclass__", "__class_getitem__"):
            if type(ns.get(k)) is Fn:
                ns[k] = classmethod(ns[k])
        if type(ns.get("__new__")) is Fn:
            ns["__new__"] = staticmethod(ns["__new__"])
        if type(ns.get("__del__")) is Fn:       # never run by the analyser's own garbage collector
            ns["__finalizer__"] = ns.pop("__del__")
        bases = tuple(b for b in bases)
        real = []
        for b in bases:
            if is_term(b):
                if isinstance(b._ty, type):
                    real.append(b._ty)
                else:
                    real.append(self.opaque_base(b))
            else:
                real.append(b)
        cls = types.new_class(name, tuple(real), kw or {}, lambda d: d.update(ns))
        for k, v in ns.items():
            if hasattr(v, "__set_name__") and not isinstance(v, (property, functools.cached_property)):
                pass
        return cls

    def opaque_base(self, b):
        k = ("base", b._args[0] if b._args else b._id)
        if k not in self.stubs:
            self.stubs[k] = type(str(k[1]).rsplit(".", 1)[-1], (), {})
        return self.stubs[k]

    # ------------------------------------------------------------------ statements
    def block(self, stmts, sc):
        for s in stmts:
            if self.step is not None:
                if self.stack:
                    self.stack[-1][2] = s
                self.step("statement", None)
            r = self.ST[type(s)](self, s, sc)
            if r is not None:
                return r
        return None

    def st_Expr(self, n, sc):
        self.ev(n.value, sc)

    def st_Pass(self, n, sc):
        pass

    def st_Return(self, n, sc):
        return ("return", self.ev(n.value, sc) if n.value is not None else None)

    def st_Break(self, n, sc):
        return BRK

    def st_Continue(self, n, sc):
        return CONT

    def st_Assign(self, n, sc):
        v = self.ev(n.value, sc)
        self.stack[-1][2] = n
        for t in n.targets:
            self.assign(t, v, sc)

    def st_AnnAssign(self, n, sc):
        if isinstance(n.target, ast.Name) and (sc.cls is not None):
            anns = sc.vars.setdefault("__annotations__", {})
            anns[n.target.id] = self.annotation(n.annotation, sc)
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, sc), sc)

    def st_AugAssign(self, n, sc):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.ev_Name(ast.copy_location(ast.Name(t.id, ast.Load()), t), sc)
            put = lambda v: self.store(self.mangle(t.id, sc), v, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            name = self.mangle(t.attr, sc)
            cur = self.getattr(o, name)
            put = lambda v: self.setattr(o, name, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            i = self.ev(t.slice, sc)
            cur = self.subscript(o, i)
            put = lambda v: self.setitem(o, i, v)
        else:
            raise EngineError("augassign target")
        b = self.ev(n.value, sc)
        self.stack[-1][2] = n
        if isinstance(cur, (list, dict, set, bytearray, collections.deque)) and type(cur) is not Term:
            self.touch(cur)
            self.emit("mutcall", obj=cur, method="__i__", args=(b,))
            if isinstance(cur, list) and is_term(b):
                b = list(self.iterate(b))
        elif not is_term(cur) and not is_term(b) and type(cur).__module__ not in ("builtins",):
            self.touch(cur)
        put(IBINOPS[type(n.op)](cur, b))

    def setitem(self, o, i, v):
        if is_term(o):
            for h in self.setitem_hooks:
                if h(self, o, i, v) is not NotImplemented:
                    return
            self.emit("setitem", obj=o, key=i, value=v)
            return
        if type(o) in (dict, list, collections.OrderedDict, bytearray) or isinstance(o, (dict, list)):
            self.touch(o)
            self.emit("setitem", obj=o, key=i, value=v)
            if isinstance(o, list) and contains_term(i):
                if is_term(i):
                    for k in range(len(o)):
                        if k == len(o) - 1 or self.cond(terms.eq(i, k)):
                            o[k] = v
                            return
                    raise IndexError
                raise EngineError("store to unknown slice")
            if isinstance(o, dict) and is_term(i):
                for k in list(o):
                    if k is i or self.cond(terms.eq(i, k)):
                        o[k] = v
                        return
            o[i] = v
            return
        o[i] = v

    setitem_hooks = ()

    def assign(self, t, v, sc):
        if type(t) is ast.Name:
            self.store(self.mangle(t.id, sc), v, sc)
        elif type(t) in (ast.Tuple, ast.List):
            star = [i for i, e in enumerate(t.elts) if type(e) is ast.Starred]
            if is_term(v):
                if star:
                    n = len(t.elts)
                    vals = [Term("unpack", v, i) for i in range(n)]
                    for e, x in zip(t.elts, vals):
                        self.assign(e.value if type(e) is ast.Starred else e,
                                    Term("rest", v, star[0], ty=list) if type(e) is ast.Starred else x, sc)
                    return
                vals = self.unpack_term(v, len(t.elts))
            else:
                vals = list(self.iterate(v))
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise ValueError(f"not enough values to unpack (expected at least {len(t.elts) - 1}, got {len(vals)})")
                vals = vals[:i] + [vals[i:len(vals) - after]] + vals[len(vals) - after:]
            elif len(vals) != len(t.elts):
                raise ValueError(f"{'too many' if len(vals) > len(t.elts) else 'not enough'} values to unpack (expected {len(t.elts)})")
            for e, x in zip(t.elts, vals):
                self.assign(e.value if type(e) is ast.Starred else e, x, sc)
        elif type(t) is ast.Attribute:
            self.setattr(self.ev(t.value, sc), self.mangle(t.attr, sc), v)
        elif type(t) is ast.Subscript:
            o = self.ev(t.value, sc)
            i = self.ev(t.slice, sc)
            self.stack[-1][2] = t
            self.setitem(o, i, v)
        elif type(t) is ast.Starred:
            self.assign(t.value, v, sc)
        else:
            raise EngineError(f"assignment target {type(t).__name__}")

    def unpack_term(self, v, n):
        for h in self.unpack_hooks:
            r = h(self, v, n)
            if r is not NotImplemented:
                return list(r)
        if v._op == "cat" or v._ty in (tuple, list) and v._op == "elem":
            pass
        return [self.term_index(v, i) for i in range(n)]

    unpack_hooks = ()

    def st_Delete(self, n, sc):
        for t in n.targets:
            if isinstance(t, ast.Name):
                name = self.mangle(t.id, sc)
                if name in sc.vars:
                    del sc.vars[name]
                else:
                    raise UnboundLocalError(name)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, sc), self.ev(t.slice, sc)
                self.stack[-1][2] = n
                if not is_term(o):
                    self.touch(o)
                    self.emit("delitem", obj=o, key=i)
                del o[i]
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, sc)
                self.touch(o)
                self.emit("delattr", obj=o, name=t.attr)
                delattr(o, self.mangle(t.attr, sc))
            elif isinstance(t, ast.Tuple):
                self.st_Delete(ast.Delete(targets=t.elts), sc)

    def st_If(self, n, sc):
        c = self.ev(n.test, sc)
        self.stack[-1][2] = n.test
        return self.block(n.body if self.cond(c) else n.orelse, sc)

    def st_While(self, n, sc):
        k = 0
        while True:
            c = self.ev(n.test, sc)
            self.stack[-1][2] = n.test
            known = not is_term(c) or self.decide(c) is not None
            if not self.cond(c):
                break
            k += 0 if known else 1
            if k > self.loop_bound + 1:
                raise PathEnd("loop bound")
            r = self.block(n.body, sc)
            if r is BRK:
                return None
            if r is not None and r is not CONT:
                return r
        return self.block(n.orelse, sc)

    def st_For(self, n, sc):
        it = self.iterate(self.ev(n.iter, sc))
        while True:
            self.stack[-1][2] = n
            try:
                x = next(it)
            except StopIteration:
                break
            self.assign(n.target, x, sc)
            r = self.block(n.body, sc)
            if r is BRK:
                return None
            if r is not None and r is not CONT:
                return r
        return self.block(n.orelse, sc)

    def st_Raise(self, n, sc):
        self.stack[-1][2] = n
        if n.exc is None:
            if not self.handled:
                raise RuntimeError("No active exception to reraise")
            raise self.handled[-1]
        e = self.ev(n.exc, sc)
        cause = self.ev(n.cause, sc) if n.cause is not None else None
        self.stack[-1][2] = n
        if is_term(e):
            t = OpaqueError(e)
            e = t
        if isinstance(e, type):
            e = self.call(e, (), {})
        if not isinstance(e, BaseException):
            raise TypeError("exceptions must derive from BaseException")
        self.emit("raise", exc=e)
        try:
            e._sa_loc = self.loc()
        except Exception:
            pass
        if n.cause is not None:
            if isinstance(cause, type):
                cause = cause()
            raise e from cause
        raise e

    def st_Try(self, n, sc):
        res = None
        pending = None
        try:
            try:
                res = self.block(n.body, sc)
            except ControlFlow:
                raise
            except BaseException as e:
                for h in n.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = self.exc_matches(e, self.ev(h.type, sc))
                    if ok:
                        if h.name:
                            self.store(h.name, e, sc)
                        self.handled.append(e)
                        self.stack[-1][2] = h
                        self.emit("except", exc=e)
                        try:
                            res = self.block(h.body, sc)
                        finally:
                            self.handled.pop()
                            if h.name:
                                sc.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                if res is None:
                    res = self.block(n.orelse, sc)
        except ControlFlow:
            raise
        except BaseException as e:
            pending = e
        if n.finalbody:
            if pending is not None:
                self.handled.append(pending)
                try:
                    r = self.block(n.finalbody, sc)
                except ControlFlow:
                    raise
                except BaseException as e2:
                    if e2 is not pending and e2.__context__ is None:
                        e2.__context__ = pending
                    raise
                finally:
                    self.handled.pop()
            else:
                r = self.block(n.finalbody, sc)
            if r is not None:
                return r
        if pending is not None:
            raise pending
        return res

    def exc_matches(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(e, x) for x in t)
        if isinstance(e, OpaqueError):
            if isinstance(t, type):
                if t in (Exception, BaseException):
                    return True
                if e.term is not None and is_term(e.term):
                    return self.choose(("exc", e.term, t.__name__), 2, f"{terms.show(e.term)} is a {t.__name__}") == 0
        if is_term(t):
            cls = self.exc_class(t)
            return isinstance(e, cls)
        return isinstance(e, t)

    def exc_class(self, t):
        return self.opaque_base(t) if t._op == "ext" else OpaqueError

    def st_With(self, n, sc):
        return self.with_items(n, list(n.items), sc)

    def with_items(self, n, items, sc):
        if not items:
            return self.block(n.body, sc)
        item, rest = items[0], items[1:]
        mgr = self.ev(item.context_expr, sc)
        self.stack[-1][2] = item.context_expr
        t = type(mgr)
        if t is Term:
            enter, exit_ = mgr.__enter__, mgr.__exit__
        else:
            try:
                enter = t.__enter__.__get__(mgr, t)
                exit_ = t.__exit__.__get__(mgr, t)
            except AttributeError:
                raise TypeError(f"'{t.__name__}' object does not support the context manager protocol")
        v = self.call(enter, (), {}) if t is not Term else enter()
        res = None
        try:
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, sc)
            res = self.with_items(n, rest, sc)
        except ControlFlow:
            raise
        except BaseException as e:
            self.stack[-1][2] = item.context_expr
            self.handled.append(e)
            try:
                if t is Term:
                    sup = exit_(type(e), e, e.__traceback__)
                else:
                    sup = self.call(exit_, (type(e), e, e.__traceback__), {})
            finally:
                self.handled.pop()
            if not self.cond(sup):
                raise
            return None
        self.stack[-1][2] = item.context_expr
        if t is Term:
            exit_(None, None, None)
        else:
            self.call(exit_, (None, None, None), {})
        return res

    def st_Assert(self, n, sc):
        if not self.cond(self.ev(n.test, sc)):
            raise AssertionError(self.ev(n.msg, sc) if n.msg else "")

    def st_Global(self, n, sc):
        pass

    st_Nonlocal = st_Global

    def st_Import(self, n, sc):
        for al in n.names:
            m = self.load(al.name)
            if al.asname:
                self.store(al.asname, m, sc)
            else:
                self.store(al.name.split(".")[0], self.load(al.name.split(".")[0]), sc)

    def st_ImportFrom(self, n, sc):
        if n.module == "__future__":
            if any(a.name == "annotations" for a in n.names):
                sc.glob._future_ann = True
            return
        base = n.module or ""
        if n.level:
            pkg = sc.glob.__package__.split(".")
            pkg = pkg[:len(pkg) - (n.level - 1)]
            base = ".".join(pkg + ([n.module] if n.module else []))
        m = self.load(base)
        for al in n.names:
            if al.name == "*":
                names = getattr(m, "__all__", None) or [k for k in m.__dict__ if not k.startswith("_")]
                for k in names:
                    self.store(k, getattr(m, k), sc)
                continue
            try:
                v = getattr(m, al.name)
            except AttributeError:
                full = f"{base}.{al.name}"
                if self.is_repo_module(base):
                    if full in self.modules:
                        v = self.modules[full]
                    elif self.module_path(full)[0] is not None:
                        v = self.load(full)
                    else:
                        raise ImportError(f"cannot import name '{al.name}' from '{base}'")
                else:
                    try:
                        importlib.util.find_spec(full)
                        v = self.external_module(full)
                    except Exception:
                        raise ImportError(f"cannot import name '{al.name}' from '{base}'")
            self.store(al.asname or al.name, v, sc)

    def st_TypeAlias(self, n, sc):
        self.store(n.name.id, self.ev(n.value, sc), sc)

    def st_Match(self, n, sc):
        v = self.ev(n.subject, sc)
        for c in n.cases:
            if self.pat(c.pattern, v, sc) and (c.guard is None or self.cond(self.ev(c.guard, sc))):
                return self.block(c.body, sc)

    def pat(self, p, v, sc):
        t = type(p)
        if t is ast.MatchValue:
            return self.cond(self.compare(ast.Eq, v, self.ev(p.value, sc)))
        if t is ast.MatchSingleton:
            return self.cond(self.is_(v, p.value))
        if t is ast.MatchAs:
            if p.pattern is not None and not self.pat(p.pattern, v, sc):
                return False
            if p.name:
                self.store(p.name, v, sc)
            return True
        if t is ast.MatchOr:
            return any(self.pat(x, v, sc) for x in p.patterns)
        if t is ast.MatchSequence:
            if is_term(v) or not isinstance(v, collections.abc.Sequence) or isinstance(v, (str, bytes)):
                if is_term(v):
                    raise EngineError("sequence pattern on unknown value")
                return False
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            vals = list(v)
            if not star:
                return len(vals) == len(p.patterns) and all(self.pat(x, y, sc) for x, y in zip(p.patterns, vals))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(vals) < len(p.patterns) - 1:
                return False
            if not all(self.pat(x, y, sc) for x, y in zip(p.patterns[:i], vals)):
                return False
            if p.patterns[i].name:
                self.store(p.patterns[i].name, vals[i:len(vals) - after], sc)
            return all(self.pat(x, y, sc) for x, y in zip(p.patterns[i + 1:], vals[len(vals) - after:]))
        if t is ast.MatchClass:
            cls = self.ev(p.cls, sc)
            if not self.cond(self.builtins["isinstance"](v, cls)):
                return False
            if cls in (bool, int, float, str, bytes, list, dict, tuple, set) and p.patterns:
                if not self.pat(p.patterns[0], v, sc):
                    return False
            else:
                ma = getattr(cls, "__match_args__", ())
                for a, x in zip(ma, p.patterns):
                    if not self.pat(x, self.getattr(v, a), sc):
                        return False
            for k, x in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    y = self.getattr(v, k)
                except AttributeError:
                    return False
                if not self.pat(x, y, sc):
                    return False
            return True
        if t is ast.MatchMapping:
            if is_term(v) or not isinstance(v, collections.abc.Mapping):
                return False
            used = []
            for k, x in zip(p.keys, p.patterns):
                kk = self.ev(k, sc)
                if kk not in v or not self.pat(x, v[kk], sc):
                    return False
                used.append(kk)
            if p.rest:
                self.store(p.rest, {k: x for k, x in v.items() if k not in used}, sc)
            return True
        raise EngineError(f"pattern {t.__name__}")

    def unsupported(self, n, sc):
        raise EngineError(f"unsupported construct {type(n).__name__} at {self.loc(n)}")

    ST = {}


class OpaqueError(Exception):
    """An exception object the analysis knows nothing about."""

    def __init__(self, term=None):
        super().__init__(str(term))
        self.term = term


class _Missing:
    def __repr__(self):
        return "<missing>"


MISSING = _Missing()

SAFE_BUILTINS = {"sorted", "min", "max", "sum", "any", "all", "iter", "next", "callable", "id", "vars", "dir",
                 "issubclass", "delattr", "divmod", "abs", "pow", "__build_class__", "hash"}

for _k in list(vars(Program)):
    if _k.startswith("ev_"):
        Program.EV[getattr(ast, _k[3:])] = vars(Program)[_k]
    elif _k.startswith("st_"):
        Program.ST[getattr(ast, _k[3:])] = vars(Program)[_k]
for _c in (ast.AsyncFunctionDef, ast.AsyncFor, ast.AsyncWith):
    Program.ST[_c] = Program.unsupported
if hasattr(ast, "TryStar"):
    Program.ST[ast.TryStar] = Program.unsupported
