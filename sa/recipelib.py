"""Recipes over opaque methods, the text round trip, and an independent comparison of recipe graphs."""
import ast
import io
import unicodedata
from . import models, terms
from .common import *
from .engine import ControlFlow, ext

METHODS = '''
from sd_mecha import *
from sd_mecha.extensions.merge_methods import *
from sd_mecha.extensions import merge_spaces, model_configs
from torch import Tensor
from typing import TypeVar
T = TypeVar("T")

@merge_method
def t_many(*a: Parameter(T)) -> Return(T):
    return a[0]

@merge_method
def t_two(a: Parameter(T), b: Parameter(T)) -> Return(T):
    return a

@merge_method
def t_def(a: Parameter(T), b: Parameter(float) = 0.25) -> Return(T):
    return a

@merge_method
def t_kw(a: Parameter(T), *, b: Parameter(T), c: Parameter(T), **kwargs) -> Return(T):
    return a

@merge_method
def t_kd(a: Parameter(T), *, b: Parameter(float) = 0.5, c: Parameter(T), **kwargs) -> Return(T):
    return a

@merge_method
def t_opt(a: Parameter(str) = "x", b: Parameter(int) = 3, c: Parameter(bool) = True) -> Return(Tensor, "weight"):
    return a

@merge_method
def t_delta(a: Parameter(Tensor, "weight"), b: Parameter(Tensor, "weight"), alpha: Parameter(float) = 1.0) -> Return(Tensor, "delta"):
    return a

@merge_method
def t_none(a: Parameter(T) = None) -> Return(Tensor, "weight"):
    return a
'''


class TextFS:
    """Text files kept in memory; reading translates line ends the way text mode does."""

    def __init__(self, p):
        self.files = {}
        io0, T = p.path_io, p.term_models
        open0 = T["builtins.open"]

        def path_io(path, meth, a, k):
            n = str(path.absolute())
            if n.startswith(str(p.root)):
                return io0(path, meth, a, k)
            if meth == "write_text":
                self.files[n] = a[0] if a else k["data"]
                return len(self.files[n])
            if meth == "write_bytes":
                self.files[n] = bytes(a[0]).decode("utf-8")
                return len(a[0])
            if meth in ("exists", "is_file"):
                return n in self.files
            if meth == "is_dir":
                return False
            if meth == "mkdir":
                return None
            if meth == "read_text":
                return self.open(n, "r").read()
            if meth == "read_bytes":
                return self.files[n].encode("utf-8")
            if meth == "open":
                return self.open(n, *a, **k)
            return io0(path, meth, a, k)
        p.path_io = path_io

        def open_(pp, a, k):
            if str(a[0]).startswith(str(p.root)):
                return open0(pp, a, k)
            return self.open(str(APath(str(a[0])).absolute()), *a[1:], **k)
        T["builtins.open"] = T["io.open"] = open_

    def open(self, n, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **k):
        fs = self
        if "w" in mode or "x" in mode or "a" in mode:
            class Out(io.BytesIO if "b" in mode else io.StringIO):
                def close(s):
                    if not s.closed:
                        v = s.getvalue()
                        fs.files[n] = v.decode("utf-8") if isinstance(v, bytes) else v
                    super().close()

                def __exit__(s, *e):
                    s.close()
            return Out()
        if n not in self.files:
            raise FileNotFoundError(n)
        t = self.files[n]
        if "b" in mode:
            return io.BytesIO(t.encode("utf-8"))
        if newline is None:
            t = t.replace("\r\n", "\n").replace("\r", "\n")
        return io.StringIO(t, newline="")


class Recipes:
    def __init__(self):
        self.prog = p = program()
        self.fs = TextFS(p)
        for n in ("warning", "error", "warn", "info", "debug", "critical", "exception"):
            p.term_models[f"logging.{n}"] = lambda p, a, k: None
        self.serialize = anchor(p, "sd_mecha.serialize")
        self.deserialize = anchor(p, "sd_mecha.deserialize")
        self.from_path = anchor(p, "sd_mecha.serialization.deserialize_path")
        self.model = anchor(p, "sd_mecha.model")
        self.literal = anchor(p, "sd_mecha.literal")
        self.nodes = p.load("sd_mecha.recipe_nodes")
        self.Literal = anchor(p, "sd_mecha.recipe_nodes.LiteralRecipeNode")
        self.Model = anchor(p, "sd_mecha.recipe_nodes.ModelRecipeNode")
        self.Merge = anchor(p, "sd_mecha.recipe_nodes.MergeRecipeNode")
        self.Node = anchor(p, "sd_mecha.recipe_nodes.RecipeNode")
        self.mm = p.load("sd_mecha.extensions.merge_methods")
        self.mc = p.load("sd_mecha.extensions.model_configs")
        self.ms = p.load("sd_mecha.extensions.merge_spaces")
        self.m = p.source("recipes", METHODS)

    def call(self, f, *a, **k):
        return self.prog.call(f, a, k)

    def attr(self, o, n):
        return self.prog.getattr(o, n)

    def once(self, entry):
        """the only trace of a deterministic entry: (value, None) or (None, exception)"""
        out = [q for q in self.prog.explore(entry, max_paths=64) if q.kind != "cut"]
        if len(out) != 1:
            raise Broken(f"{len(out)} traces where one was expected")
        q = out[0]
        return (q.value, None) if q.kind == "return" else (None, q.value)

    # ---- comparison of graphs by their public attributes
    def diff(self, a, b, at="recipe"):
        """None when the graphs are the same, else where they differ"""
        N = self.Node
        if isinstance(a, self.Literal):
            # an argument may be given as a bare value or as a literal node
            if not isinstance(b, self.Literal):
                return f"{at}: a literal became {type(b).__name__}"
            return (self.ident(a, b, at) or self.diff(self.attr(a, "value"), self.attr(b, "value"), f"{at}.value"))
        if isinstance(a, self.Model):
            if not isinstance(b, self.Model):
                return f"{at}: a model became {type(b).__name__}"
            if str(self.attr(a, "path")) != str(self.attr(b, "path")):
                return f"{at}: path {str(self.attr(a, 'path'))!r} became {str(self.attr(b, 'path'))!r}"
            return self.ident(a, b, at)
        if isinstance(a, self.Merge):
            if not isinstance(b, self.Merge):
                return f"{at}: a merge became {type(b).__name__}"
            if self.attr(a, "merge_method") is not self.attr(b, "merge_method"):
                return f"{at}: the merge method became {self.attr(self.attr(b, 'merge_method'), 'identifier')!r}"
            x, y = list(self.attr(a, "args")), list(self.attr(b, "args"))
            if len(x) != len(y):
                return f"{at}: {len(x)} positional arguments became {len(y)}"
            for i, (u, v) in enumerate(zip(x, y)):
                d = self.diff(u, v, f"{at}[{i}]")
                if d:
                    return d
            x, y = self.attr(a, "kwargs"), self.attr(b, "kwargs")
            if set(x) != set(y):
                return f"{at}: keyword arguments {sorted(x)} became {sorted(y)}"
            for k in x:
                d = self.diff(x[k], y[k], f"{at}.{k}")
                if d:
                    return d
            return self.ident(a, b, at)
        if isinstance(a, dict):
            if type(b) is not dict and not isinstance(b, dict):
                return f"{at}: a dictionary became {b!r}"
            if list(a) != list(b):
                return f"{at}: keys {list(a)!r} became {list(b)!r}"
            for k in a:
                # a dictionary value may be given bare and come back wrapped as a literal of the same value
                u, v = self.bare(a[k]), self.bare(b[k])
                d = self.diff(u, v, f"{at}[{k!r}]")
                if d:
                    return d
            return None
        if isinstance(a, N) or isinstance(b, N):
            return f"{at}: {a!r} became {b!r}"
        if type(a) is not type(b) or repr(a) != repr(b):
            return f"{at}: {a!r} became {b!r}"
        return None

    def bare(self, x):
        """a literal node without config in the space of parameters stands for its value"""
        if isinstance(x, self.Literal) and self.attr(x, "model_config") is None and getattr(self.attr(x, "merge_space"), "identifier", None) == "param":
            return self.attr(x, "value")
        return x

    def name_of(self, a, n):
        try:
            x = self.attr(a, n)
        except ControlFlow:
            raise
        except Exception as e:
            return type(e).__name__
        return getattr(x, "identifier", x)

    def ident(self, a, b, at):
        for n in ("merge_space", "model_config"):
            x, y = self.name_of(a, n), self.name_of(b, n)
            if x != y:
                return f"{at}: {n} {x!r} became {y!r}"
        return None

    def round_trips(self, node):
        """every way back from the text: [(how, text, graph or exception)]"""
        text = self.call(self.serialize, node)
        yield "text", text, text
        yield "list of lines", text, text.split("\n")
        yield "lines of a file", text, [l + "\n" for l in text.split("\n")]
        yield "lines with carriage returns", text, [l + "\r\n" for l in text.split("\n")]


def characters(prog):
    """A partition of characters: those the (de)serialization code distinguishes, plus one or more of each kind str methods distinguish."""
    special = set()
    src = prog.modules["sd_mecha.serialization"].__file__
    words = set()
    for n in ast.walk(ast.parse(open(src).read())):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and not (len(n.value) > 24):
            words.add(n.value)
            special |= {c for c in n.value if not c.isalnum()}
    special |= set(" \\\"'=&#\n\r\t-+._:,{}[]()$%")
    kinds = ["n", "r", "t", "e", "x", "1", "0", "E", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u00a0", "\x00", "\u00e9", "\u4e2d", "\U0001f600", "\u0661", "\ufeff"]
    return sorted(special) + [k for k in kinds if k not in special], sorted(w for w in words if len(w) > 1)
