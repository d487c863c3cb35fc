"""An abstract torch (and the numpy that goes with it) for merge methods.

A tensor is a view of a storage.  A storage has an origin (an input of the analysed recipe, or fresh), a fixed shape of
the scenario, and a value: an expression over the inputs in polynomial normal form, in which whatever is not a ring
operation is opaque.  Writing to a tensor writes to its storage, so that what the source does to shared memory is seen
whatever names it goes through.  Truth values of tensors are unknown and split the trace.
"""
import builtins
import collections
import functools
import itertools
import json
import math
import pathlib
from fractions import Fraction
from . import models, terms
from .terms import Term, EngineError, ControlFlow, is_term

P = lambda: terms.PROG
NAMES = json.loads((pathlib.Path(__file__).parent / "torch_names.json").read_text())
METHOD_NAMES, FUNCTION_NAMES = set(NAMES["tensor"]), set(NAMES["functions"])
CAP = 160
NAN = Term("const", "nan", ty=float)


# ---- values -------------------------------------------------------------------
def T(op, *args):
    return Term(op, *args, ty=float)


def num(x):
    """a python number as a coefficient, or a term"""
    if is_term(x):
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, float):
        if not math.isfinite(x):
            return T("const", repr(x))
        f = Fraction(repr(x)) if abs(x) < 1e15 else Fraction(x)
        return f.numerator if f.denominator == 1 else f
    if isinstance(x, complex):
        return num(x.real) if x.imag == 0 else T("const", repr(x))
    raise TypeError(f"unsupported operand type for a tensor operation: '{type(x).__name__}'")


TRUTHS = {"lt", "le", "eq", "ne", "isclose", "isnan", "isinf", "isfinite", "logical_not", "land", "lor", "to bool"}


def norm(p):
    """cancel t * 1/t, make coefficients canonical"""
    out = {}
    for m, c in p.items():
        if any(t._op == "recip" for t in m):
            m = list(m)
            for t in [t for t in m if t._op == "recip"]:
                at = [i for i, x in enumerate(m) if x is t._args[0]]
                if at:
                    del m[at[0]]
                    del m[next(i for i, x in enumerate(m) if x is t)]
            m = tuple(m)
        if len(m) > 1 and any(x is y and x._op in TRUTHS for x, y in zip(m, m[1:])):
            m = tuple(x for i, x in enumerate(m) if not i or x is not m[i - 1] or x._op not in TRUTHS)
        out[m] = out.get(m, 0) + c
    return {m: num(c) for m, c in out.items() if c}


def parts(x):
    return x._args if is_term(x) and x._op == "stack" else None


def spread(f, *xs):
    """f on each part of stacked operands; None when no operand is stacked"""
    n = {len(parts(x)) for x in xs if parts(x) is not None}
    if len(n) != 1:
        return None
    n, = n
    return T("stack", *[f(*[parts(x)[i] if parts(x) is not None else x for x in xs]) for i in range(n)])


def spreadable(*pairs):
    """stacked operands can be combined part by part when the others are not indexed by the stacking dimension"""
    rank = max(len(s) for e, s in pairs)
    return any(parts(e) is not None for e, s in pairs) and all(len(s) == rank if parts(e) is not None else len(s) < rank or s[0] == 1 and parts(e) is None and len(s) == 0 for e, s in pairs)


def add(a, b, s=1):
    return fin(norm(terms.poly_bin("+" if s == 1 else "-", terms.poly(a), terms.poly(b))))


def fin(p):
    if any(t is NAN for m in p for t in m):
        return NAN
    return terms.poly_term(p, float)


def mul(a, b):
    p, q = terms.poly(a), terms.poly(b)
    if not p or not q:                                # zero times something that is not finite is not zero
        return NAN if any(t._op == "const" for m in (*p, *q) for t in m) else 0
    if len(p) * len(q) > CAP:
        x, y = sorted((a, b), key=lambda t: t._id)
        return T("product", x, y)
    return fin(norms(norm(terms.poly_bin("*", p, q))))


def leading(e):
    """e or -e, whichever has a positive leading coefficient"""
    if is_term(e) and e._op == "poly":
        p = terms.poly(e)
        if p[min(p, key=lambda m: (len(m), tuple(t._id for t in m)))] < 0:
            return mul(-1, e)
    return fin(terms.poly(e))


def scalar(t):
    """a value with a single element, whatever it is computed from"""
    if not is_term(t):
        return True
    a = t._args
    if t._op in ("norm", "sum", "mean", "prod", "std", "var", "amax", "amin", "any", "all", "count_nonzero", "logsumexp"):
        return len(a) > 1 and a[1] is None
    if t._op in ("item", "const"):
        return True
    if t._op == "poly":
        return all(scalar(x) for m, _ in a[0] for x in m)
    return t._op in SCALAR_OPS and all(scalar(x) for x in a)


SCALAR_OPS = {"recip", "maximum", "minimum", "abs", "sqrt", "sin", "cos", "acos", "asin", "tan", "exp", "log", "pow", "le", "lt", "eq"}


def summed(e, d, n):
    """sum of e over the dimensions d (n elements): numbers and scalars leave the sum"""
    total = 0
    for m, c in terms.poly(e).items():
        x, y = 1, 1
        for t in m:
            if scalar(t):
                y = mul(y, t)
            else:
                x = mul(x, t)
        total = add(total, mul(mul(c, y), T("sum", x, d) if is_term(x) else num(x * n)))
    return total


def norms(p):
    """|x| * |x| is the sum of the squares of x; x ** a * x ** b is x ** (a + b)"""
    def key(t):
        if t._op == "norm" and len(t._args) == 2 and t._args[1] is None:
            return ("norm", t, 1)
        if t._op == "recip" and is_term(t._args[0]) and t._args[0]._op == "norm" and len(t._args[0]._args) == 2 and t._args[0]._args[1] is None:
            return ("norm", t._args[0], -1)
        if t._op == "pow":
            return ("pow", t._args[0], t._args[1])
        if t._op == "abs":
            return ("abs", t, 1)
        if t._op == "recip" and is_term(t._args[0]) and t._args[0]._op == "abs":
            return ("abs", t._args[0], -1)
        return None
    if not any(t._op in ("pow", "norm", "recip", "abs") for m in p for t in m):
        return p
    out, again = {}, False
    for m, c in p.items():
        seen = {}
        for t in m:
            k = key(t)
            if k is not None:
                seen.setdefault((k[0], id(k[1]) if is_term(k[1]) else k[1], k[2] if k[0] != "pow" else 0), []).append((t, k))
        pairs = [v for v in seen.values() if len(v) > 1]
        if not pairs:
            out[m] = out.get(m, 0) + c
            continue
        (t, k), (u, l) = pairs[0][:2]
        rest = list(m)
        for x in (t, u):
            del rest[next(i for i, y in enumerate(rest) if y is x)]
        if k[0] == "pow":
            r = power(k[1], add(k[2], l[2]))
        else:
            r = mul(k[1]._args[0], k[1]._args[0])
            if k[0] == "norm":
                r = summed(r, None, 1)
            if k[2] < 0:
                r = recip(r)
        for x in rest:
            r = mul(r, x)
        again = True
        for mm, cc in terms.poly(mul(c, r)).items():
            out[mm] = out.get(mm, 0) + cc
    return norm(out) if again else p


def recip(b):
    if parts(b) is not None:
        return T("stack", *[recip(x) for x in parts(b)])
    p = terms.poly(b)
    if not p:
        return T("const", "inf")
    if len(p) == 1:
        (m, c), = p.items()
        r = num(Fraction(1) / Fraction(c))
        for t in m:
            r = mul(r, t._args[0] if t._op == "recip" else T("recip", t))
        return r
    lead = min(p, key=lambda m: (len(m), tuple(t._id for t in m)))
    c = Fraction(p[lead])
    if c != 1:
        return mul(num(1 / c), recip(fin({m: num(Fraction(k) / c) for m, k in p.items()})))
    return T("recip", b)


def div(a, b):
    return mul(a, recip(b))


def power(a, n):
    n = num(n) if not is_term(n) else n
    if type(n) is int and 0 <= n <= 4:
        r = 1
        for _ in range(n):
            r = mul(r, a)
        return r
    if n == -1 and not is_term(n):
        return recip(a)
    if not is_term(a) and not is_term(n):
        if a in (0, 1):
            return a if n != 0 else 1
    if not is_term(a) and a == 1:
        return 1
    return T("pow", a, n)


def same(a, b):
    if a is b:
        return True
    return not norm(terms.poly_bin("-", terms.poly(a), terms.poly(b)))


def substitute(e, sub):
    """e with atoms replaced; sub: {term: value}"""
    memo = {}

    def go(x):
        if type(x) is tuple:
            return tuple(go(y) for y in x)
        if not is_term(x):
            return x
        if x in memo:
            return memo[x]
        if x in sub:
            r = sub[x]
        elif x._op == "poly":
            r = 0
            for m, c in x._args[0]:
                t = c
                for a in m:
                    t = mul(t, go(a))
                r = add(r, t)
        elif x._op == "recip":
            r = recip(go(x._args[0]))
        elif x._op in ("abs", "sign", "square") and len(x._args) == 1:
            r = lib().unary(x._op, go(x._args[0]), ())
        elif x._op in ("eq", "le", "lt", "maximum", "minimum") and len(x._args) == 2:
            r = lib().binary(x._op, go(x._args[0]), go(x._args[1]))
        elif x._args and any(is_term(y) or type(y) is tuple for y in x._args):
            r = Term(x._op, *[go(y) for y in x._args], ty=x._ty)
        else:
            r = x
        memo[x] = r
        return r
    return go(e)


def atoms(e):
    """every sub-term"""
    return list(terms.walk(e))


def ops(e):
    return {t._op for t in terms.walk(e)}


# ---- shapes -------------------------------------------------------------------
def sz(*s):
    return models.Size(s)


def broadcast(*shapes):
    rank = max((len(s) for s in shapes), default=0)
    out = []
    for i in range(rank):
        ds = {s[i - rank + len(s)] for s in shapes if i - rank + len(s) >= 0}
        ds.discard(1)
        if len(ds) > 1:
            raise RuntimeError(f"shapes {[tuple(s) for s in shapes]} cannot be broadcast together")
        out.append(ds.pop() if ds else 1)
    return sz(*out)


def matmul_shape(a, b):
    if not a or not b:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    if len(a) == 1 and len(b) == 1:
        if a != b:
            raise RuntimeError("inconsistent tensor size")
        return sz()
    if len(a) == 1:
        return sz(*matmul_shape((1,) + tuple(a), b)[:-2], b[-1])
    if len(b) == 1:
        if a[-1] != b[0]:
            raise RuntimeError("size mismatch")
        return sz(*a[:-1])
    if a[-1] != b[-2]:
        raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({tuple(a)} and {tuple(b)})")
    return sz(*broadcast(a[:-2], b[:-2]), a[-2], b[-1])


def axis(d, rank):
    if not isinstance(d, int) or is_term(d):
        raise TypeError("dimension must be an int")
    if not -max(rank, 1) <= d < max(rank, 1):
        raise IndexError(f"Dimension out of range (expected to be in range of [{-max(rank, 1)}, {max(rank, 1) - 1}], but got {d})")
    return d % max(rank, 1)


def reduced(shape, dim, keepdim):
    if dim is None:
        return sz(*([1] * len(shape) if keepdim else []))
    ds = {axis(d, len(shape)) for d in (dim if isinstance(dim, (tuple, list)) else [dim])}
    return sz(*[1 if i in ds else s for i, s in enumerate(shape) if keepdim or i not in ds])


def size_args(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = a[0]
    out = []
    for x in a:
        if is_term(x) or not isinstance(x, int) or isinstance(x, bool):
            if isinstance(x, TT):
                raise EngineError("size from a tensor")
            raise TypeError(f"size must be ints, not {type(x).__name__}")
        out.append(x)
    return out


def new_shape(shape, target):
    target = size_args([tuple(target)])
    n = math.prod(shape)
    if target.count(-1) > 1:
        raise RuntimeError("only one dimension can be inferred")
    rest = math.prod(t for t in target if t != -1)
    if -1 in target:
        if rest == 0 or n % rest:
            raise RuntimeError(f"shape {target} is invalid for input of size {n}")
        target = [n // rest if t == -1 else t for t in target]
    if math.prod(target) != n:
        raise RuntimeError(f"shape {target} is invalid for input of size {n}")
    return sz(*target)


# ---- tensors ------------------------------------------------------------------
class Root:
    """a storage"""
    ids = itertools.count()

    def __init__(self, expr, shape, origin="fresh", name=None, links=()):
        self.expr, self.shape, self.origin, self.name, self.links = expr, shape, origin, name, tuple(links)
        self.id = next(Root.ids)
        self.writes = 0

    def all(self):
        """this storage and those it may be the same as"""
        seen, todo = [], [self]
        while todo:
            r = todo.pop()
            if r not in seen:
                seen.append(r)
                todo += r.links
        return seen


RESHAPES = {"reshape", "squeeze", "unsqueeze"}


class TT(models.Tensor):
    def __init__(self, root, shape, path=(), dtype=None, dev="cpu"):
        object.__setattr__(self, "root", root)
        self.shape, self.path, self.dtype, self.dev = sz(*shape), path, dtype or models.DTYPES["float32"], dev

    # value
    @property
    def expr(self):
        v, shape = self.root.expr, self.root.shape
        return look(v, shape, self.path)

    def derive(self, step, shape, dtype=None):
        """a view of the same storage"""
        return TT(self.root, shape, self.path + (step,), dtype or self.dtype, self.dev)

    def write(self, value):
        lib().written(self)
        r = self.root
        r.writes += 1
        r.expr = put(r.expr, r.shape, self.path, value)

    @property
    def device(self):
        return lib().device(self.dev)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lib().attribute(self, name)

    def __setattr__(self, name, value):
        if name == "data":
            self.write(value.expr)
            return
        object.__setattr__(self, name, value)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return lib().truth(self)

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of a 0-d tensor")
        return self.shape[0]

    def __iter__(self):
        if not self.shape:
            raise TypeError("iteration over a 0-d tensor")
        return iter([self[i] for i in range(self.shape[0])])

    def __getitem__(self, i):
        return lib().index(self, i)

    def __setitem__(self, i, v):
        t = lib().index(self, i, True)
        if isinstance(t, tuple):                      # masked
            _, how = t
            if isinstance(how[0], str) and how[0] == "all":
                self.write(reshaped(val(v), self.shape, v.shape) if isinstance(v, TT) and v.shape else val(v))
                return
            if isinstance(how[0], str) and how[0] == "none":
                self.write(self.expr)
                return
            if isinstance(i, TT) and i.dtype.name == "bool" and tuple(i.shape) == tuple(self.shape):
                u = ungathered(val(v), how)
                if u is not None:
                    self.write(add(mul(i.expr, u), mul(add(1, i.expr, -1), self.expr)))
                    return
            self.write(T("masked_set", self.expr, how, val(v)))
            return
        broadcast(t.shape, v.shape if isinstance(v, TT) else ())
        t.write(val(v))

    def __repr__(self):
        return f"tensor({terms.show(self.expr)}, shape={tuple(self.shape)})"

    def __float__(self):
        e = lib().number(self)
        if is_term(e):
            raise EngineError("number of a tensor")
        return float(e)

    def __contains__(self, x):
        return bool((self == x).any())

    def __index__(self):
        if self.dtype.is_floating_point:
            raise TypeError("only integer tensors of a single element can be converted to an index")
        e = lib().number(self)
        if is_term(e):
            raise EngineError("number of a tensor")
        return int(e)


def look(v, shape, path):
    """value of a view"""
    i = 0
    while i < len(path):
        step = path[i]
        kind = step[0]
        if kind == "cast":
            i += 1
            continue
        if kind == "shape":
            while i + 1 < len(path) and path[i + 1][0] in ("shape", "cast"):
                i += 1
                if path[i][0] == "shape":
                    step = path[i]
            if tuple(step[1]) != tuple(shape) and is_term(v):
                if parts(v) is not None and len(step[1]) > 0 and step[1][0] == shape[0] == len(parts(v)):
                    v = T("stack", *[reshaped(x, step[1][1:], shape[1:]) for x in parts(v)])
                else:
                    v = reshaped(v, step[1], shape)
            shape = step[1]
        else:
            if kind == "select" and step[1] == 0 and parts(v) is not None:
                v = parts(v)[step[2]]
            elif kind == "slice" and step[1] == 0 and parts(v) is not None:
                v = T("stack", *parts(v)[step[2]:step[3] if step[3] >= 0 else None:step[4]])
            elif is_term(v):
                if kind == "permute" and v._op == "permute" and tuple(v._args[1][j] for j in step[1]) == tuple(range(len(step[1]))):
                    v = v._args[0]
                else:
                    v = T(kind, v, *step[1:-1])
            shape = step[-1]
        i += 1
    return v


def reshaped(v, shape, old):
    if not is_term(v) or tuple(shape) == tuple(old):
        return v
    if v._op == "reshape":
        if tuple(v._args[2]) == tuple(shape):
            return v._args[0]
        return T("reshape", v._args[0], tuple(shape), v._args[2])
    if v._op == "poly":
        p = dict(v._args[0])
        linear = [[t for t in m if not scalar(t)] for m in p]
        if all(len(x) == 1 for x in linear) and (len(p) == 1 or all(x[0]._op == "reshape" and tuple(x[0]._args[1]) == tuple(old) for x in linear)):
            r = 0
            for (m, c), (x,) in zip(p.items(), linear):
                y = mul(c, reshaped(x, shape, old))
                for t in m:
                    if t is not x:
                        y = mul(y, t)
                r = add(r, y)
            return r
    return T("reshape", v, tuple(shape), tuple(old))


def put(old, shape, path, value):
    """value of the storage after writing through a view"""
    path = tuple(s for s in path if s[0] != "cast")
    if any(0 in s[-1] for s in path if s[0] != "shape" and isinstance(s[-1], tuple)):
        return old                                        # no element at all
    if all(s[0] == "shape" for s in path):
        return reshaped(value, shape, path[-1][1]) if path and is_term(value) else value
    if len(path) == 1 and path[0][0] in ("select", "slice") and is_term(value) and same(look(old, shape, path), value):
        return old                                        # what is there already
    if len(path) == 1 and path[0][0] == "slice" and path[0][1] == 0 and parts(old) is not None:
        ps, at = list(parts(old)), slice(path[0][2], path[0][3] if path[0][3] >= 0 else None, path[0][4])
        n = len(ps[at])
        if parts(value) is not None and len(parts(value)) == n or not is_term(value):
            ps[at] = list(parts(value)) if parts(value) is not None else [value] * n
            return T("stack", *ps)
    if len(path) == 1 and path[0][0] == "select" and path[0][1] == 0 and parts(old) is not None:
        ps = list(parts(old))
        ps[path[0][2]] = value
        return T("stack", *ps)
    if path[-1][0] in ("permute",) and len(path) == 1 and is_term(value):
        inv = tuple(path[0][1].index(i) for i in range(len(path[0][1])))
        if value._op == "permute" and tuple(value._args[1]) == tuple(path[0][1]):
            return value._args[0]
        return T("permute", value, inv)
    return T("update", old, tuple(tuple(tuple(x) if isinstance(x, list) else x for x in s[:-1]) for s in path), value)


def ungathered(e, how):
    """the elements of which e takes those of a mask; None when e is something else"""
    r = 0
    for m, c in terms.poly(e).items():
        x = c
        for t in m:
            if t._op == "gathered" and len(how) == len(t._args[1]) == 1 and t._args[1][0] is how[0]:
                x = mul(x, t._args[0])
            elif scalar(t):
                x = mul(x, t)
            else:
                return None
        r = add(r, x)
    return r


def val(x):
    """value of an operand"""
    if isinstance(x, TT):
        return x.expr
    return num(x)


def shp(x):
    return x.shape if isinstance(x, TT) else sz()


class AGen:
    """torch.Generator"""

    def __init__(self, device=None):
        self.seeded, self.n, self.own = ("default",), 0, P().uid()
        lib().generators.append(self)

    def manual_seed(self, s):
        self.seeded, self.n = ("seed", lib().seed_of(s)), 0
        return self

    def seed(self):
        self.seeded, self.n = ("random", P().uid()), 0
        return Term("seed", P().uid(), ty=int)

    def initial_seed(self):
        return Term("seed", self.own, ty=int)

    def get_state(self):
        return lib().fresh(T("state", self.own, self.n), (8,))

    def set_state(self, s):
        self.seeded, self.n = ("state", val(s)), 0
        return self

    @property
    def device(self):
        return lib().device("cpu")

    def __hash__(self):
        return id(self)


class ARng:
    """numpy.random.Generator / random.Random"""

    def __init__(self, kind, seed):
        self.kind, self.n = kind, 0
        self.seeded = ("random", P().uid()) if seed is None else ("seed", lib().seed_of(seed))
        lib().generators.append(self)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name == "seed":
            def reseed(s=None, *a, **k):
                self.seeded, self.n = (("random", P().uid()) if s is None else ("seed", lib().seed_of(s))), 0
            return reseed

        def draw(*a, **k):
            size = k.get("size")
            if size is None and name in ("permutation", "shuffle", "permuted") and a:
                size = shp(a[0]) if not isinstance(a[0], int) else (a[0],)
            if size is None and name in ("random", "standard_normal") and a:
                size = a[0]
            if isinstance(size, int):
                size = (size,)
            chances = k.get("p")
            if chances is not None and not isinstance(chances, TT) and not is_term(chances):
                import numpy
                c = numpy.asarray(chances, dtype=float)
                if numpy.isnan(c).any() or (c < 0).any() or (c > 1).any() or name == "choice" and abs(c.sum() - 1) > 1e-7:
                    raise ValueError("probabilities are not probabilities")
            args = tuple(lib().freeze(x) for x in a) + tuple((n, lib().freeze(x)) for n, x in sorted(k.items()) if n != "size")
            t = lib().draw(self, f"{self.kind}.{name}", args, size)
            if name == "binomial" and isinstance(t, TT):
                n, chance = (list(a) + [k.get("n"), k.get("p")][len(a):])[:2]
                if type(n) is int and not isinstance(chance, TT) and not is_term(chance) and chance in (0, 1):
                    return lib().like(t, int(n * chance))
            return t
        return draw

    def __hash__(self):
        return id(self)


class GlobalRng:
    """the generator everybody shares"""

    def __init__(self, kind):
        self.kind, self.n = kind, 0

    @property
    def seeded(self):
        return ("global", self.kind, P().uid())

    def __hash__(self):
        return id(self)


def lib():
    return P().tensors


UNARY = """abs absolute acos arccos asin arcsin atan arctan cos sin tan cosh sinh tanh exp exp2 expm1 log log2 log10 log1p sqrt rsqrt square_ sign sgn
floor ceil round trunc frac erf erfc erfinv sigmoid relu reciprocal_ isnan isinf isfinite isneginf isposinf logical_not bitwise_not nan_to_num angle digamma lgamma
positive conj_physical signbit deg2rad rad2deg celu elu gelu silu softplus hardtanh sinc logit""".split()
BOOLS = {"isnan", "isinf", "isfinite", "isneginf", "isposinf", "logical_not", "signbit"}
CANON = {"absolute": "abs", "arccos": "acos", "arcsin": "asin", "arctan": "atan", "clip": "clamp", "greater": "gt", "greater_equal": "ge", "less": "lt", "less_equal": "le", "not_equal": "ne", "multiply": "mul",
         "subtract": "sub", "divide": "div", "true_divide": "div", "negative": "neg", "swapaxes": "transpose", "swapdims": "transpose", "moveaxis": "movedim", "concatenate": "cat", "concat": "cat", "fix": "trunc",
         "arctan2": "atan2", "nelement": "numel", "ger": "outer", "bitwise_and": "and", "bitwise_or": "or", "bitwise_xor": "xor", "logical_and": "land", "logical_or": "lor", "logical_xor": "lxor"}
BINARY = "maximum minimum fmax fmin atan2 fmod remainder floor_divide hypot copysign nextafter xlogy and or xor land lor lxor gt ge lt le eq ne bitwise_left_shift bitwise_right_shift heaviside logaddexp logaddexp2".split()
COMPARE = {"gt", "ge", "lt", "le", "eq", "ne", "land", "lor", "lxor"}
NEED_TENSOR = {"maximum", "minimum", "fmax", "fmin", "atan2", "hypot", "copysign", "land", "lor", "lxor"}
SYMMETRIC = {"maximum", "minimum", "fmax", "fmin", "and", "or", "xor", "land", "lor", "lxor", "eq", "ne", "hypot"}
REDUCE = "sum mean prod std var norm amax amin logsumexp nansum nanmean any all count_nonzero".split()
TUPLES = {"linalg.svd": ("U", "S", "Vh"), "svd": ("U", "S", "V"), "linalg.eigh": ("eigenvalues", "eigenvectors"), "linalg.eig": ("eigenvalues", "eigenvectors"), "linalg.qr": ("Q", "R"), "qr": ("Q", "R"),
          "slogdet": ("sign", "logabsdet"), "linalg.slogdet": ("sign", "logabsdet"), "geqrf": ("a", "tau"), "linalg.lstsq": ("solution", "residuals", "rank", "singular_values")}


class TensorLib:
    def __init__(self, prog):
        self.prog = prog
        prog.tensors = self
        self.events = []
        self.generators = []
        self.close = {}            # atoms established to be close to a constant on this trace
        self.caches = []
        self.globals = {k: GlobalRng(k) for k in ("torch", "numpy", "random")}
        E, O = prog.ext_values, prog.overrides
        E["torch.Generator"] = AGen
        E["numpy.ndarray"] = TT
        for n in ("nan", "inf", "pi", "e"):
            E[f"numpy.{n}"] = getattr(math, n)
        for n in ("int64", "float32", "float64", "bool_", "int32", "uint8"):
            E[f"numpy.{n}"] = models.dtype(n, 8, n.startswith("float"))
            E[f"numpy.{n}"].__class__ = NpType
        E["torch.nn.CosineSimilarity"] = lambda dim=1, eps=1e-8: (lambda a, b: self.call("nn.functional.cosine_similarity", (a, b), {"dim": dim, "eps": eps}))
        E["torch.strided"] = "strided"
        prog.call_hooks.insert(0, self.hook)
        for f in (float, int, abs, round, bool, len, max, min, sum, isinstance):
            self.override(O, f)
        old = prog.term_binop

        def binop(op, a, b):
            if isinstance(a, TT) or isinstance(b, TT):
                return self.binary_op(op, a, b)
            return old(op, a, b)
        prog.term_binop = binop

    def reset(self):
        self.events, self.generators, self.close, self.caches = [], [], {}, []
        for g in self.globals.values():
            g.n = 0

    # ---- making
    def device(self, name):
        from .iomodel import ADevice
        return ADevice(name)

    def input(self, name, shape, dtype="float32"):
        return TT(Root(T("atom", name), sz(*shape), "input", name), shape, (), models.DTYPES[dtype])

    def fresh(self, expr, shape, dtype=None, links=()):
        return TT(Root(expr, sz(*shape), links=links), shape, (), dtype)

    def like(self, t, expr, shape=None, dtype=None):
        return self.fresh(expr, t.shape if shape is None else shape, dtype or t.dtype)

    def ev(self, kind, **d):
        d.update(kind=kind, at=self.prog.loc())
        self.events.append(d)

    def written(self, t):
        self.ev("write", tensor=t, roots=t.root.all())

    # ---- python protocol
    def truth(self, t):
        if math.prod(t.shape) > 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        e = t.expr
        if not is_term(e):
            return bool(e)
        r = bool(P().truth(Term("nonzero", e, ty=bool)))
        self.learn(e, r)
        return r

    def equated(self, d):
        """the expression d is (close to) zero: what that says about an atom"""
        p = terms.poly(d)
        lin = [m for m in p if len(m) == 1]
        if set(p) <= {(), *lin} and len(lin) == 1:
            self.close[lin[0][0]] = num(-Fraction(p.get((), 0)) / Fraction(p[lin[0]]))
        elif set(p) <= {(), *lin} and len(lin) == 2 and all(m[0]._op == "atom" for m in lin):
            (x,), (y,) = sorted(lin, key=lambda m: repr(m[0]._args))
            self.close[y] = fin({m: num(-Fraction(c) / Fraction(p[(y,)])) for m, c in p.items() if not (len(m) == 1 and m[0] is y)})

    def learn(self, e, r):
        """what the truth of e says about atoms"""
        if not is_term(e):
            return
        op, a = e._op, e._args
        if op in ("all", "any") and len(a) == 2:
            if r == (op == "all"):
                self.learn(a[0], r)
        elif op in ("logical_not", "not"):
            self.learn(a[0], not r)
        elif op == "eq" and r or op == "ne" and not r or op == "isclose" and r:
            if op != "isclose" or a[2] <= 1e-5 and a[3] <= 1e-8:
                c = [x._args[0] for x in a if is_term(x) and x._op == "count_nonzero"]
                self.equated(c[0] if c and 0 in [x for x in a if not is_term(x)] else add(a[0], a[1], -1))
        elif op in ("land", "and") and r or op in ("lor", "or") and not r:
            for x in a:
                self.learn(x, r)
        elif op in ("lt", "le") and r and not is_term(a[1]) and is_term(a[0]) and 0 <= a[1] <= Fraction(1, 10 ** 4):
            x = a[0]                                   # the largest of |x| is tiny
            if x._op == "abs":
                self.equated(x._args[0])
            elif x._op in ("amax", "max", "norm") or x._op == "sum" and is_term(x._args[0]) and x._args[0]._op in ("abs", "square"):
                self.equated(x._args[0]._args[0] if is_term(x._args[0]) and x._args[0]._op in ("abs", "square") else x._args[0] if x._op == "norm" else 1)
        elif op in ("atom", "abs", "poly", "sum") and not r:
            if op == "sum":
                e = a[0]
                if not (is_term(e) and e._op == "abs"):
                    return
            self.equated(e._args[0] if e._op == "abs" else e)

    def number(self, t):
        if math.prod(t.shape) != 1:
            raise RuntimeError("a Tensor with more than one element cannot be converted to Scalar")
        e = t.expr
        if t.dtype is models.DTYPES["bool"]:
            return self.truth(t)
        if not is_term(e):
            return float(e) if isinstance(e, Fraction) else e
        return Term("item", e, ty=float)

    def override(self, O, f):
        old = O.get(id(f))

        def h(p, a, k):
            if a and isinstance(a[0], TT):
                x = a[0]
                if f is float:
                    r = self.number(x)
                    return r if is_term(r) else float(r)
                if f is int:
                    r = self.number(x)
                    return Term("trunc", r, ty=int) if is_term(r) else int(r)
                if f is bool:
                    return self.truth(x)
                if f is abs:
                    return self.call("abs", (x,), {})
                if f is round:
                    return self.call("round", (x,), {})
                if f is len:
                    return len(x)
            if f in (max, min) and len(a) > 1 and any(isinstance(x, TT) for x in a):
                best = a[0]
                for x in a[1:]:
                    if p.truth(self.binary_op("<" if f is min else ">", x, best)):
                        best = x
                return best
            if f is sum and a and isinstance(a[0], (list, tuple)) and any(isinstance(x, TT) for x in a[0]):
                r = a[1] if len(a) > 1 else k.get("start", 0)
                for x in a[0]:
                    r = r + x
                return r
            if old is not None:
                return old(p, a, k)
            return f(*a, **k)
        O[id(f)] = h

    # ---- operators
    def binary_op(self, op, a, b):
        n = {"+": "add", "-": "sub", "*": "mul", "/": "div", "//": "floor_divide", "%": "remainder", "**": "pow", "@": "matmul", "&": "and", "|": "or", "^": "xor", "<<": "bitwise_left_shift", ">>": "bitwise_right_shift",
             "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne"}[op]
        for x in (a, b):
            if not isinstance(x, TT) and not (isinstance(x, (int, float, complex, Fraction)) or is_term(x)):
                return NotImplemented
        return self.call(n, (a, b), {})

    # ---- attributes and calls
    def attribute(self, t, name):
        r = t.shape
        n = len(r)
        if name in ("T", "mT", "H", "mH", "mh"):
            if n < 2 and name != "T":
                raise RuntimeError("tensor.mT is only supported on matrices")
            perm = tuple(range(n))[::-1] if name in ("T", "H") else tuple(range(n - 2)) + (n - 1, n - 2)
            return self.permute(t, perm)
        if name in ("real", "data", "imag"):
            return t if name != "imag" else t.derive(("imag", t.shape), t.shape)
        if name == "ndim":
            return n
        if name == "nbytes":
            return math.prod(r) * t.dtype.itemsize
        if name == "itemsize":
            return t.dtype.itemsize
        if name == "is_cuda":
            return t.dev != "cpu"
        if name == "is_cpu":
            return t.dev == "cpu"
        if name == "requires_grad":
            return False
        if name in ("grad", "grad_fn"):
            return None
        if name == "layout":
            return "strided"
        if name in ("is_sparse", "is_quantized", "is_meta", "is_leaf", "is_mps"):
            return name == "is_leaf"
        if name not in METHOD_NAMES and name not in ("astype", "size", "copy"):
            raise AttributeError(f"'Tensor' object has no attribute '{name}'")
        return functools.partial(self.method, t, name)

    def method(self, t, name, *a, **k):
        return self.call(name, (t, *a), k, method=True)

    def freeze(self, x):
        if isinstance(x, TT):
            return x.expr
        if isinstance(x, (list, tuple)):
            return tuple(self.freeze(y) for y in x)
        if isinstance(x, dict):
            return tuple(sorted((k, self.freeze(v)) for k, v in x.items()))
        if type(x).__module__ == "numpy":
            return ("array", x.tobytes(), str(x.dtype), x.shape) if hasattr(x, "tobytes") else x
        if isinstance(x, (models.dtype,)):
            return x.name
        if callable(x) and not is_term(x):
            return getattr(x, "__name__", "callable")
        return x

    def seed_of(self, s):
        return self.freeze(s) if not isinstance(s, float) else s

    def hook(self, p, name, recv, args, kwargs):
        if not isinstance(name, str) or recv is not None:
            return NotImplemented
        if name.startswith("torch."):
            return self.call(name[6:], args, kwargs)
        if name.startswith("numpy."):
            return self.numpy(name[6:], args, kwargs)
        if name.startswith("scipy."):
            return self.native(name, args, kwargs)
        if name.startswith("random."):
            if name in ("random.Random", "random.SystemRandom"):
                return ARng("random", args[0] if args and name == "random.Random" else None)
            if name == "random.seed":
                self.ev("reseed", what="random")
                return None
            return self.draw(self.globals["random"], name, tuple(self.freeze(x) for x in args), None)
        return NotImplemented

    def native(self, name, args, kwargs):
        """constant folding of pure numeric functions"""
        import importlib
        if any(isinstance(x, TT) or is_term(x) for x in itertools.chain(args, kwargs.values())):
            raise EngineError(f"{name} of a tensor")
        mod, _, fn = name.rpartition(".")
        cut, attrs = mod, [fn]
        while True:
            try:
                o = importlib.import_module(cut)
                break
            except ImportError:
                cut, _, a = cut.rpartition(".")
                attrs.insert(0, a)
        for a in attrs:
            o = getattr(o, a)
        kwargs = {k: (bool if isinstance(v, NpType) and v.name.startswith("bool") else v.name if isinstance(v, NpType) else v) for k, v in kwargs.items()}
        return o(*args, **kwargs)

    def numpy(self, name, args, kwargs):
        if name.startswith("random."):
            fn = name[7:]
            if fn in ("default_rng", "RandomState", "Generator"):
                s = args[0] if args else kwargs.get("seed")
                if isinstance(s, ARng):
                    return s
                return ARng("numpy", s)
            if fn in ("SeedSequence", "PCG64", "MT19937", "Philox", "SFC64"):
                return ARng("numpy", args[0] if args else kwargs.get("seed"))
            if fn in ("seed", "set_state"):
                self.ev("reseed", what="numpy")
                return None
            size = kwargs.get("size")
            if fn in ("rand", "randn"):
                size = args
            return self.draw(self.globals["numpy"], name, tuple(self.freeze(x) for x in args), (size,) if isinstance(size, int) else size)
        if any(isinstance(x, TT) or is_term(x) for x in itertools.chain(args, kwargs.values())):
            if name in ("asarray", "array") and isinstance(args[0], TT):
                return args[0]
            if name in FUNCTION_NAMES:
                return self.call(name, args, kwargs)
            return NotImplemented
        return self.native(f"numpy.{name}", args, kwargs)

    # ---- random numbers
    def draw(self, gen, what, args, shape, dtype=None):
        n, gen.n, seeded = gen.n, gen.n + 1, gen.seeded
        self.ev("draw", gen=gen, what=what, task=getattr(self.prog.io, "task", None), seeded=seeded)
        e = T("draw", seeded, n, what, args)
        if shape is None:
            return Term("item", e, ty=float)
        return self.fresh(e, shape, dtype)

    # ---- indexing
    def index(self, t, i, store=False):
        if isinstance(i, str):
            raise TypeError("tensors cannot be indexed by str")
        items = list(i) if isinstance(i, tuple) else [i]
        if any(isinstance(x, str) for x in items):
            raise TypeError("tensors cannot be indexed by str")
        if any(isinstance(x, (TT, list)) or type(x).__module__ == "numpy" for x in items):
            m = items[0]
            how = self.freeze(items)
            if len(items) == 1 and isinstance(m, TT) and m.dtype.name == "bool" and not is_term(m.expr) and tuple(m.shape) == tuple(t.shape):
                if store:
                    return ("masked", ("all",) if m.expr else ("none",))
                size = (math.prod(t.shape) if m.expr else 0,)
                return self.like(t, reshaped(t.expr, size, t.shape) if m.expr else 0, size)
            if store:
                return ("masked", how)
            if isinstance(m, TT) and m.dtype.name == "bool":
                shape = (2,) + tuple(t.shape[len(m.shape):])
            else:
                shape = tuple(m.shape if isinstance(m, TT) else (len(m),) if isinstance(m, list) else m.shape) + tuple(t.shape[1:])
            return self.like(t, T("gathered", t.expr, how), shape)
        if any(is_term(x) or isinstance(x, slice) and any(is_term(y) for y in (x.start, x.stop, x.step)) for x in items):
            raise EngineError("tensor indexed by an unknown number")
        n = sum(1 for x in items if x is not None and x is not Ellipsis and not isinstance(x, bool))
        if n > len(t.shape):
            raise IndexError("too many indices for tensor")
        if Ellipsis in items:
            j = items.index(Ellipsis)
            items[j:j + 1] = [slice(None)] * (len(t.shape) - n)
        d = 0
        for x in items:
            if x is None:
                t = t.derive(("shape", sz(*t.shape[:d], 1, *t.shape[d:])), sz(*t.shape[:d], 1, *t.shape[d:]))
                d += 1
            elif isinstance(x, slice):
                s, e, st = x.indices(t.shape[d])
                m = len(range(s, e, st))
                if (s, st) != (0, 1) or m != t.shape[d]:
                    shape = sz(*t.shape[:d], m, *t.shape[d + 1:])
                    t = t.derive(("slice", d, s, s + m if st == 1 else e, st, shape), shape)
                d += 1
            else:
                x = int(x)
                if not -t.shape[d] <= x < t.shape[d]:
                    raise IndexError(f"index {x} is out of bounds for dimension {d} with size {t.shape[d]}")
                shape = sz(*t.shape[:d], *t.shape[d + 1:])
                t = t.derive(("select", d, x % t.shape[d], shape), shape)
        return t

    def permute(self, t, perm):
        if tuple(perm) == tuple(range(len(t.shape))):
            return t.derive(("cast",), t.shape)
        shape = sz(*[t.shape[i] for i in perm])
        return t.derive(("permute", tuple(perm), shape), shape)

    def reshape(self, t, shape, view=False):
        shape = new_shape(t.shape, shape)
        if any(s[0] in ("permute", "expand") for s in t.path):
            r = self.like(t, reshaped(t.expr, shape, t.shape), shape)
            r.root.links = (t.root,)
            if not view:
                return r
        return t.derive(("shape", shape), shape)

    # ---- calls
    def call(self, name, a, k, method=False):
        """torch.<name>(*a, **k), or the method of the same name of a[0]"""
        if getattr(self.prog.io, "armed", None) is not None:
            self.prog.io.sched(f"torch.{name}")
        base = name
        for pre in ("_C._nn.", "special.", "Tensor."):
            if base.startswith(pre):
                base = base[len(pre):]
        if base.endswith("_like") is False and base.endswith("_") and not base.startswith("_") and len(base) > 1 and (method or a and isinstance(a[0], TT)):
            return self.inplace(base[:-1], a, k)
        out = k.pop("out", None) if "out" in k else None
        r = self.function(CANON.get(base, base), a, dict(k), method, name)
        if out is not None:
            if isinstance(out, TT):
                out.write(r.expr)
                return out
            for o, x in zip(out, r):
                o.write(x.expr)
            return out
        return r

    def inplace(self, name, a, k):
        t = a[0]
        if not isinstance(t, TT):
            raise TypeError(f"{name}_ needs a tensor")
        if name in ("requires_grad", "share_memory", "pin_memory"):
            return t
        if name in ("squeeze", "unsqueeze", "t", "transpose", "resize", "swapaxes", "swapdims", "detach"):
            return self.function(name, a, k, True, name)
        if name == "copy":
            broadcast(t.shape, shp(a[1]))
            t.write(val(a[1]))
        elif name == "fill":
            t.write(val(a[1]))
        elif name == "zero":
            t.write(0)
        elif name in ("bernoulli", "uniform", "normal", "random", "exponential", "cauchy", "log_normal", "geometric"):
            g = k.pop("generator", None)
            t.write(self.draw(g or self.globals["torch"], name, tuple(self.freeze(x) for x in a[1:]) + tuple(sorted((n, self.freeze(v)) for n, v in k.items())), t.shape).expr)
        elif name in ("index_add", "index_copy", "index_fill", "index_put", "masked_fill", "masked_scatter", "scatter", "scatter_add", "scatter_reduce", "put", "fill_diagonal", "tril", "triu", "map", "apply", "set", "sub"
                      ) and name != "sub":
            t.write(T(name, t.expr, *[self.freeze(x) for x in a[1:]], *sorted((n, self.freeze(v)) for n, v in k.items())))
        else:
            r = self.function(CANON.get(name, name), a, k, True, name)
            t.write(r.expr)
        return t

    def elementwise(self, f, *xs, dtype=None):
        """f over the values of the operands"""
        shape = broadcast(*[shp(x) for x in xs])
        pairs = [(val(x), shp(x)) for x in xs]
        first = next(x for x in xs if isinstance(x, TT))
        es = [e for e, s in pairs]
        r = spread(f, *es) if spreadable(*pairs) else None
        return self.like(first, f(*es) if r is None else r, shape, dtype)

    def need(self, what, *xs):
        for x in xs:
            if not isinstance(x, TT):
                raise TypeError(f"{what}: argument must be Tensor, not {type(x).__name__}")

    def function(self, f, a, k, method, name):
        B = models.DTYPES["bool"]
        h = getattr(self, "f_" + f.replace(".", "_"), None)
        if h is not None:
            return h(*a, **k)
        # ring operations
        if f in ("add", "sub", "rsub"):
            x, y = a[0], a[1] if len(a) > 1 else k["other"]
            al = k.get("alpha", 1)
            self.operands(f, x, y)
            s = -1 if f == "sub" else 1
            if f == "rsub":
                x, y, s = y, x, -1
            return self.elementwise(lambda u, v: add(u, mul(val(al), v), s), x, y)
        if f == "mul":
            self.operands(f, *a[:2])
            return self.elementwise(mul, *a[:2])
        if f == "div":
            self.operands(f, *a[:2])
            if k.get("rounding_mode") is not None:
                return self.elementwise(lambda u, v: T("divround", k["rounding_mode"], u, v), *a[:2])
            return self.elementwise(div, *a[:2])
        if f in ("pow", "float_power"):
            self.operands(f, *a[:2])
            return self.elementwise(power, a[0], a[1] if len(a) > 1 else k["exponent"])
        if f == "square":
            self.need(f, a[0])
            return self.elementwise(lambda u: mul(u, u), a[0])
        if f == "reciprocal":
            self.need(f, a[0])
            return self.elementwise(recip, a[0])
        if f == "neg":
            self.need(f, a[0])
            return self.elementwise(lambda u: mul(-1, u), a[0])
        if f == "addcmul":
            v = k.get("value", 1)
            self.need(f, *a[:3])
            return self.elementwise(lambda x, y, z: add(x, mul(val(v), mul(y, z))), *a[:3])
        if f == "addcdiv":
            v = k.get("value", 1)
            self.need(f, *a[:3])
            return self.elementwise(lambda x, y, z: add(x, mul(val(v), div(y, z))), *a[:3])
        if f == "lerp":
            w = a[2] if len(a) > 2 else k["weight"]
            self.need(f, *a[:2])
            return self.elementwise(lambda x, y, z: add(x, mul(z, add(y, x, -1))), a[0], a[1], w)
        if f in UNARY:
            if not a or not isinstance(a[0], TT):
                raise TypeError(f"{f}(): argument 'input' must be Tensor, not {type(a[0]).__name__ if a else 'nothing'}")
            extra = tuple(self.freeze(x) for x in a[1:]) + tuple(sorted((n, self.freeze(v)) for n, v in k.items() if n != "inplace" and v is not None))
            return self.elementwise(lambda u: self.unary(f, u, extra), a[0], dtype=B if f in BOOLS else None)
        if f in BINARY:
            x, y = a[0], a[1] if len(a) > 1 else k.get("other")
            self.operands(f, x, y)
            if f in NEED_TENSOR:
                self.need(f, x, y)
            return self.elementwise(lambda u, v: self.binary(f, u, v), x, y, dtype=B if f in COMPARE else None)
        if f in REDUCE:
            return self.reduce(f, a, k)
        if f in TUPLES:
            return self.multi(f, a, k)
        if not method and "." not in f and f not in FUNCTION_NAMES and name not in FUNCTION_NAMES:
            raise AttributeError(f"module 'torch' has no attribute '{f}'")
        return self.unknown(f, a, k)

    def operands(self, f, *xs):
        if not any(isinstance(x, TT) for x in xs):
            raise TypeError(f"{f}(): argument 'input' must be Tensor")
        for x in xs:
            if not isinstance(x, TT) and not is_term(x) and not isinstance(x, (int, float, complex, Fraction)):
                raise TypeError(f"unsupported operand type(s) for {f}: 'Tensor' and '{type(x).__name__}'")

    def unary(self, f, u, extra):
        if not is_term(u) and not extra:
            if f == "abs":
                return abs(u)
            if f in ("sign", "sgn"):
                return (u > 0) - (u < 0)
            if f in ("floor", "ceil", "trunc", "round", "sqrt") and u in (0, 1):
                return u
            if f in ("isnan", "isinf", "isneginf", "isposinf"):
                return 0
            if f == "isfinite":
                return 1
            if f in ("sin", "tan", "sinh", "tanh", "log1p", "expm1") and u == 0 or f == "log" and u == 1:
                return 0
            if f in ("exp", "cos", "cosh") and u == 0:
                return 1
        if f == "nan_to_num":
            if not is_term(u):
                return u
            if u is NAN and not any(isinstance(x, tuple) and x[0] == "nan" and x[1] or not isinstance(x, tuple) and x for x in extra):
                return 0
            extra = tuple(x for x in extra if x not in (("nan", 0), ("nan", 0.0), 0, 0.0))
        if f == "abs" and is_term(u) and u._op in ("abs", "sqrt"):
            return u
        if u is NAN and f not in BOOLS:
            return NAN
        if f == "isnan" and u is NAN:
            return 1
        if f == "acos" and not is_term(u) and u == 1:
            return 0
        if is_term(u) and u._op == "reshape" and not extra:
            return reshaped(self.unary(f, u._args[0], ()), u._args[1], u._args[2])
        if f in ("abs", "square") and is_term(u) and u._op == "poly":
            v = leading(u)
            if v is not u:
                return self.unary(f, v, extra)
        if f in ("sign", "sgn") and is_term(u) and not extra:
            v = leading(u)
            p = terms.poly(v)
            if len(p) == 1:
                (mono, c), = p.items()
                v = fin({mono: 1})
            if v is not u:
                return mul(self.flipped(u), self.unary(f, v, ()))
            if u._op in ("sign", "sgn"):
                return u
        return T(f, u, *extra)

    def flipped(self, u):
        """the sign of the leading coefficient"""
        p = terms.poly(u)
        return 1 if p[min(p, key=lambda m: (len(m), tuple(t._id for t in m)))] > 0 else -1

    def binary(self, f, u, v):
        if f in ("gt", "ge"):
            f, u, v = {"gt": "lt", "ge": "le"}[f], v, u
        if not is_term(u) and not is_term(v):
            g = {"lt": lambda: int(u < v), "le": lambda: int(u <= v), "eq": lambda: int(u == v), "ne": lambda: int(u != v), "maximum": lambda: max(u, v), "minimum": lambda: min(u, v),
                 "floor_divide": lambda: u // v if v else 0, "remainder": lambda: u % v if v else 0}.get(f)
            if g is not None:
                return num(g())
            if f in ("and", "or", "xor") and isinstance(u, int) and isinstance(v, int):
                return {"and": u & v, "or": u | v, "xor": u ^ v}[f]
        if f in ("maximum", "minimum", "fmax", "fmin") and same(u, v):
            return u
        if f == "le" and is_term(u) and u._op == "kthvalue" and u._args[1] == 1 and is_term(v):
            x = u._args[0]                                # the smallest element is at most every element
            while is_term(x) and x._op == "reshape":
                x = x._args[0]
            if same(x, v):
                return 1
        if f == "le" and not is_term(u) and u <= 0 and is_term(v) and v._op in ("abs", "square", "norm"):
            return 1
        if f == "eq" and is_term(u) and is_term(v) and self.flipped(u) < 0 and self.flipped(v) < 0:
            u, v = mul(-1, u), mul(-1, v)
        if f in SYMMETRIC:
            u, v = sorted((u, v), key=lambda t: (is_term(t), t._id if is_term(t) else float(t)))
        return T(f, u, v)

    def reduce(self, f, a, k):
        t = a[0]
        self.need(f, t)
        rest = list(a[1:])
        dim, keep = k.pop("dim", None), k.pop("keepdim", False)
        dim = k.pop("axis", dim)
        p = ()
        if f == "norm":
            p = (self.freeze(rest.pop(0)),) if rest else (self.freeze(k.pop("p", 2)),)
            p = () if p in ((2,), ("fro",), (2.0,), (None,)) else p
        elif f in ("std", "var"):
            c = k.pop("correction", None)
            if rest and isinstance(rest[0], bool):
                c = int(rest.pop(0))
            if "unbiased" in k:
                c = int(k.pop("unbiased"))
            p = (1 if c is None else c,)
        if rest:
            dim = rest.pop(0)
        if rest:
            keep = rest.pop(0)
        k.pop("dtype", None)
        e = t.expr
        shape = reduced(t.shape, dim, keep)
        B = models.DTYPES["bool"] if f in ("any", "all") else None
        n = math.prod(t.shape) if dim is None else math.prod(t.shape[axis(d, len(t.shape))] for d in (dim if isinstance(dim, (tuple, list)) else [dim]))
        ax0 = dim is not None and (dim if isinstance(dim, int) else dim[0] if len(dim) == 1 else None) in (0, -len(t.shape))
        if parts(e) is not None and (ax0 or dim is None and len(t.shape) == 1):
            ps = parts(e)
            if f in ("sum", "mean"):
                s = 0
                for x in ps:
                    s = add(s, x)
                return self.like(t, s if f == "sum" else div(s, len(ps)), shape, B)
            if f in ("amax", "amin"):
                return self.like(t, functools.reduce(lambda u, v: self.binary("maximum" if f == "amax" else "minimum", u, v), ps), shape, B)
            if f in ("any", "all") and not any(is_term(x) for x in ps):
                return self.like(t, int((any if f == "any" else all)(ps)), shape, B)
        if not is_term(e):
            if f == "sum":
                return self.like(t, num(e * n), shape)
            if f in ("mean", "amax", "amin"):
                return self.like(t, e, shape)
            if f == "count_nonzero":
                return self.like(t, n if e else 0, shape)
            if f in ("any", "all"):
                return self.like(t, int(bool(e)), shape, B)
            if f in ("std", "var"):
                return self.like(t, 0, shape)
        if not t.shape and f == "norm" and p == ():
            return self.like(t, self.unary("abs", e, ()))
        if not shape and not t.shape and f in ("sum", "mean", "prod", "amax", "amin"):
            return self.like(t, e, shape)
        d = None if dim is None else tuple(sorted(axis(x, len(t.shape)) for x in (dim if isinstance(dim, (tuple, list)) else [dim])))
        if f in ("sum", "mean"):
            # linear: constants leave the reduction
            total = summed(e, d, n)
            return self.like(t, total if f == "sum" else div(total, n), shape)
        return self.like(t, T(f, leading(e) if f in ("norm", "std", "var") else e, d, *p), shape, B)

    def multi(self, f, a, k):
        self.need(f, a[0])
        t = a[0]
        s = t.shape
        canon = {"svd": "linalg.svd", "qr": "linalg.qr", "slogdet": "linalg.slogdet"}.get(f, f)
        key = tuple(sorted((n, self.freeze(v)) for n, v in k.items() if n not in ("driver", "full_matrices", "some"))) + tuple(self.freeze(x) for x in a[1:])
        fields = TUPLES[f]
        if canon in ("linalg.svd", "linalg.qr") and len(s) < 2:
            raise RuntimeError("input must have at least 2 dimensions")
        if canon == "linalg.svd":
            m, n = s[-2:]
            full = k.get("full_matrices", True) if f == "linalg.svd" else not k.get("some", True)
            q = min(m, n)
            shapes = [(m, m if full else q), (q,), (n if full else q, n)]
            if f == "svd":
                shapes[2] = (n, n if full else q)
        elif canon == "linalg.qr":
            q = min(s[-2:])
            shapes = [(s[-2], q), (q, s[-1])]
        elif canon in ("linalg.eigh", "linalg.eig"):
            if len(s) < 2 or s[-1] != s[-2]:
                raise RuntimeError("A must be batches of square matrices")
            shapes = [(s[-1],), (s[-1], s[-1])]
        elif canon == "linalg.slogdet":
            shapes = [(), ()]
        elif canon == "geqrf":
            shapes = [s[-2:], (min(s[-2:]),)]
        else:
            shapes = [s] * len(fields)
        lead = s[:-2]
        out = [self.like(t, T(f"{canon}.{i}", t.expr, *key), tuple(lead) + tuple(sh)) for i, sh in enumerate(shapes)]
        return collections.namedtuple("result", fields)(*out)

    def unknown(self, f, a, k):
        """some function of its arguments: a fresh tensor of the shape of the first one"""
        ts = [x for x in a if isinstance(x, TT)]
        if not ts:
            ts = [y for x in a if isinstance(x, (list, tuple)) for y in x if isinstance(y, TT)]
        if a and not isinstance(a[0], TT) and not isinstance(a[0], (list, tuple)) and "." not in f and not ts:
            raise TypeError(f"{f}(): argument 'input' must be Tensor, not {type(a[0]).__name__}")
        if not ts:
            return NotImplemented
        e = T(f, *[self.freeze(x) for x in a], *sorted((n, self.freeze(v)) for n, v in k.items()))
        r = self.like(ts[0], e)
        r.root.links = tuple(x.root for x in ts)       # possibly a view
        return r

    # ---- constructors
    def dt(self, k, x=None):
        d = k.get("dtype")
        return d if isinstance(d, models.dtype) else models.DTYPES["float32"]

    def f_tensor(self, x, **k):
        if isinstance(x, TT):
            return self.like(x, x.expr)
        if isinstance(x, (list, tuple)):
            ys = [self.f_tensor(y) for y in x]
            if not ys:
                return self.fresh(0, (0,), self.dt(k))
            return self.f_stack(ys)
        if type(x).__module__ == "numpy":
            return self.fresh(T("array", x.tobytes(), x.shape) if x.shape else num(x.item()), x.shape, self.dt(k))
        d = k.get("dtype")
        if d is None:
            d = models.DTYPES["bool" if isinstance(x, bool) else "int64" if isinstance(x, int) and not is_term(x) else "float32"]
        return self.fresh(num(x), (), d)

    def f_as_tensor(self, x, **k):
        return self.f_to(x, **k) if isinstance(x, TT) else self.f_tensor(x, **k)

    f_asarray = f_as_tensor

    def f_from_numpy(self, x):
        if isinstance(x, TT):
            return x.derive(("cast",), x.shape)
        return self.f_tensor(x)

    def f_numpy(self, x, **k):
        return x.derive(("cast",), x.shape)

    def f_astype(self, x, *a, **k):
        return self.like(x, x.expr)

    def f_copy(self, x):
        return self.like(x, x.expr)

    def filled(self, v, shape, k):
        return self.fresh(v, size_args(shape if not (len(shape) == 1 and isinstance(shape[0], TT)) else [shape[0].shape]), self.dt(k))

    def f_zeros(self, *s, **k):
        return self.filled(0, s or [k["size"]], k)

    def f_ones(self, *s, **k):
        return self.filled(1, s or [k["size"]], k)

    def f_empty(self, *s, **k):
        return self.filled(T("uninitialised", self.prog.uid()), s or [k["size"]], k)

    def f_full(self, s, v=None, **k):
        return self.filled(val(k.get("fill_value", v)), [s], k)

    def f_zeros_like(self, t, **k):
        self.need("zeros_like", t)
        return self.like(t, 0)

    def f_ones_like(self, t, **k):
        self.need("ones_like", t)
        return self.like(t, 1)

    def f_empty_like(self, t, **k):
        self.need("empty_like", t)
        return self.like(t, T("uninitialised", self.prog.uid()))

    def f_full_like(self, t, v, **k):
        self.need("full_like", t)
        return self.like(t, val(v))

    def f_new_zeros(self, t, *s, **k):
        return self.filled(0, s or [k["size"]], k)

    def f_new_ones(self, t, *s, **k):
        return self.filled(1, s or [k["size"]], k)

    def f_new_full(self, t, s, v, **k):
        return self.filled(val(v), [s], k)

    def f_new_tensor(self, t, x, **k):
        return self.f_tensor(x, **k)

    def f_new_empty(self, t, *s, **k):
        return self.f_empty(*s, **k)

    def f_eye(self, n, m=None, **k):
        return self.fresh(T("eye", n, m or n), (n, m or n), self.dt(k))

    def f_linspace(self, a, b, n, **k):
        return self.fresh(T("linspace", num(a), num(b), n), (n,), self.dt(k))

    def f_arange(self, *a, **k):
        if any(is_term(x) for x in a):
            raise EngineError("arange of an unknown number")
        r = range(*[int(x) for x in a]) if all(isinstance(x, int) for x in a) else range(max(0, math.ceil((a[1] - a[0]) / (a[2] if len(a) > 2 else 1)) if len(a) > 1 else math.ceil(a[0])))
        return self.fresh(T("stack", *r) if all(isinstance(x, int) for x in a) and len(r) <= 16 and len(r) else T("arange", *[num(x) for x in a]), (len(r),), self.dt(k))

    # ---- random
    def rnd(self, what, shape, args, k):
        g = k.pop("generator", None)
        if g is not None and not isinstance(g, AGen):
            raise TypeError("generator must be a torch.Generator")
        return self.draw(g or self.globals["torch"], what, tuple(self.freeze(x) for x in args), shape, self.dt(k))

    def f_rand(self, *s, **k):
        return self.rnd("rand", size_args(s or [k["size"]]), (), k)

    def f_randn(self, *s, **k):
        return self.rnd("randn", size_args(s or [k["size"]]), (), k)

    def f_rand_like(self, t, **k):
        return self.rnd("rand", t.shape, (), k)

    def f_randn_like(self, t, **k):
        return self.rnd("randn", t.shape, (), k)

    def f_randint(self, *a, **k):
        size = k.get("size", a[-1])
        return self.rnd("randint", size_args([size]), tuple(x for x in a if not isinstance(x, (tuple, list))), k)

    def f_randint_like(self, t, *a, **k):
        return self.rnd("randint", t.shape, a, k)

    def f_randperm(self, n, **k):
        return self.rnd("randperm", (n,), (n,), k)

    def f_bernoulli(self, t, p=None, **k):
        r = self.rnd("bernoulli", t.shape, (t, p), k)
        chance = p if p is not None else t.expr
        return r if is_term(chance) or isinstance(chance, TT) or chance not in (0, 1) else self.like(r, int(chance))

    def f_poisson(self, t, **k):
        return self.rnd("poisson", t.shape, (t,), k)

    def f_multinomial(self, t, n, replacement=False, **k):
        return self.rnd("multinomial", (*t.shape[:-1], n), (t, n, replacement), k)

    def f_normal(self, *a, **k):
        size = k.pop("size", None)
        ts = [x for x in (*a, k.get("mean"), k.get("std")) if isinstance(x, TT)]
        return self.rnd("normal", size if size is not None else broadcast(*[t.shape for t in ts]), a, k)

    def f_nn_functional_dropout(self, t, p=0.5, training=True, inplace=False):
        return self.rnd("dropout", t.shape, (t, p), {}) if training else t

    f_dropout = f_nn_functional_dropout

    def f_manual_seed(self, s):
        self.ev("reseed", what="torch")
        return Term("generator", ty=None)

    def f_seed(self):
        self.ev("reseed", what="torch")
        return Term("seed", self.prog.uid(), ty=int)

    def f_set_rng_state(self, *a, **k):
        self.ev("reseed", what="torch")

    f_cuda_manual_seed = f_cuda_manual_seed_all = f_random_manual_seed = f_manual_seed
    f_random_set_rng_state = f_set_rng_state

    def f_random_fork_rng(self, *a, **k):
        return Term("ctx", "fork_rng")

    # ---- views and copies
    def f_to(self, t, *a, **k):
        self.need("to", t)
        d, dev = k.get("dtype"), k.get("device")
        for x in a:
            if isinstance(x, models.dtype):
                d = x
            elif isinstance(x, TT):
                d, dev = x.dtype, x.dev
            elif x is not None and not isinstance(x, bool):
                dev = x
        return self.cast(t, d, k.get("copy", False))

    def cast(self, t, d, copy=False):
        if isinstance(d, NpType) or d is None:
            d = t.dtype
        if not isinstance(d, models.dtype):
            raise TypeError(f"dtype must be torch.dtype, not {type(d).__name__}")
        e = t.expr
        fl = lambda x: x.is_floating_point or x.name.startswith("complex")
        if d is t.dtype and not copy:
            return t.derive(("cast",), t.shape)
        if not fl(d) and (fl(t.dtype) or d.name == "bool" and t.dtype.name != "bool"):
            f = lambda u: (T(f"to {'bool' if d.name == 'bool' else 'int'}", u) if is_term(u) else (int(bool(u)) if d.name == "bool" else int(u)))
            r = spread(f, e)
            e = f(e) if r is None else r
        r = self.like(t, e, None, d)
        if not copy:
            r.root.links = (t.root,)
        return r

    def f_type(self, t, d=None, **k):
        return f"torch.{t.dtype.name}" if d is None else self.cast(t, d)

    def f_type_as(self, t, o):
        return self.cast(t, o.dtype)

    for _n, _d in (("float", "float32"), ("half", "float16"), ("double", "float64"), ("bfloat16", "bfloat16"), ("int", "int32"), ("long", "int64"), ("bool", "bool"), ("short", "int16"), ("cfloat", "complex64"), ("byte", "uint8")):
        locals()[f"f_{_n}"] = lambda self, t, *a, _d=_d, **k: (self.need(_d, t), self.cast(t, models.DTYPES[_d]))[1]

    def f_cpu(self, t, *a, **k):
        return t.derive(("cast",), t.shape)

    f_cuda = f_detach = f_alias = f_view_as_real = f_resolve_conj = f_resolve_neg = f_cpu

    def f_contiguous(self, t, *a, **k):
        return self.reshape(t, t.shape)

    def f_clone(self, t, *a, **k):
        self.need("clone", t)
        return self.like(t, t.expr)

    f_detach_copy = f_clone

    def f_conj(self, t):
        return t.derive(("cast",), t.shape) if not t.dtype.name.startswith("complex") else t.derive(("conj", t.shape), t.shape)

    def f_real(self, t):
        return t.derive(("cast",), t.shape)

    def f_complex(self, a, b):
        self.need("complex", a, b)
        return self.elementwise(lambda u, v: u if not is_term(v) and v == 0 else T("complex", u, v), a, b)

    def f_reshape(self, t, *s, **k):
        self.need("reshape", t)
        return self.reshape(t, size_args(s or [k["shape"]]))

    def f_view(self, t, *s, **k):
        if s and isinstance(s[0], models.dtype):
            return self.cast(t, s[0])
        return self.reshape(t, size_args(s), True)

    def f_reshape_as(self, t, o):
        return self.reshape(t, o.shape)

    f_view_as = f_reshape_as

    def f_flatten(self, t, start_dim=0, end_dim=-1):
        self.need("flatten", t)
        n = len(t.shape)
        if n == 0:
            return self.reshape(t, [1])
        s, e = axis(start_dim, n), axis(end_dim, n)
        return self.reshape(t, [*t.shape[:s], math.prod(t.shape[s:e + 1]), *t.shape[e + 1:]])

    def f_ravel(self, t):
        return self.reshape(t, [-1])

    def f_unflatten(self, t, dim, sizes):
        d = axis(dim, len(t.shape))
        return self.reshape(t, [*t.shape[:d], *new_shape((t.shape[d],), sizes), *t.shape[d + 1:]])

    def f_squeeze(self, t, dim=None):
        self.need("squeeze", t)
        n = len(t.shape)
        ds = set(range(n)) if dim is None else {axis(d, n) for d in (dim if isinstance(dim, (tuple, list)) else [dim])}
        return t.derive(("shape", sz(*[s for i, s in enumerate(t.shape) if not (i in ds and s == 1)])), [s for i, s in enumerate(t.shape) if not (i in ds and s == 1)])

    def f_unsqueeze(self, t, dim):
        self.need("unsqueeze", t)
        d = axis(dim, len(t.shape) + 1)
        s = [*t.shape[:d], 1, *t.shape[d:]]
        return t.derive(("shape", sz(*s)), s)

    def f_t(self, t):
        return self.permute(t, tuple(range(len(t.shape)))[::-1])

    def f_adjoint(self, t):
        n = len(t.shape)
        return self.permute(t, (*range(n - 2), n - 1, n - 2))

    def f_transpose(self, t, a, b):
        p = list(range(len(t.shape)))
        a, b = axis(a, len(p)), axis(b, len(p))
        p[a], p[b] = p[b], p[a]
        return self.permute(t, p)

    def f_permute(self, t, *d, **k):
        d = [axis(x, len(t.shape)) for x in size_args(d or [k["dims"]])]
        if sorted(d) != list(range(len(t.shape))):
            raise RuntimeError("permute: wrong dimensions")
        return self.permute(t, d)

    def f_movedim(self, t, a, b):
        n = len(t.shape)
        a, b = ([axis(x, n) for x in (v if isinstance(v, (tuple, list)) else [v])] for v in (a, b))
        rest = [i for i in range(n) if i not in a]
        for y, x in sorted(zip(b, a)):
            rest.insert(y, x)
        return self.permute(t, rest)

    def f_expand(self, t, *s):
        s = size_args(s)
        off = len(s) - len(t.shape)
        s = [t.shape[i - off] if x == -1 else x for i, x in enumerate(s)]
        broadcast(t.shape, s)
        return t.derive(("expand", tuple(s), sz(*s)), s) if tuple(s) != tuple(t.shape) else t.derive(("cast",), s)

    def f_expand_as(self, t, o):
        return self.f_expand(t, *o.shape)

    f_broadcast_to = f_expand

    def f_repeat(self, t, *s):
        s = size_args(s)
        off = len(s) - len(t.shape)
        return self.like(t, T("repeat", t.expr, tuple(s)) if is_term(t.expr) else t.expr, [x * (t.shape[i - off] if i >= off else 1) for i, x in enumerate(s)])

    f_tile = f_repeat

    def f_narrow(self, t, dim, start, length):
        d = axis(dim, len(t.shape))
        return self.index(t, (slice(None),) * d + (slice(start, start + length),))

    def f_select(self, t, dim, i):
        d = axis(dim, len(t.shape))
        return self.index(t, (slice(None),) * d + (i,))

    def f_unbind(self, t, dim=0):
        self.need("unbind", t)
        d = axis(dim, len(t.shape))
        return tuple(self.f_select(t, d, i) for i in range(t.shape[d]))

    def f_split(self, t, size, dim=0):
        d = axis(dim, len(t.shape))
        sizes = list(size) if isinstance(size, (list, tuple)) else [min(size, t.shape[d] - i) for i in range(0, t.shape[d], size)]
        if sum(sizes) != t.shape[d]:
            raise RuntimeError("split_with_sizes expects split_sizes to sum exactly to the size of the dimension")
        out, o = [], 0
        for s in sizes:
            out.append(self.f_narrow(t, d, o, s))
            o += s
        return tuple(out)

    f_split_with_sizes = f_split

    def f_chunk(self, t, n, dim=0):
        self.need("chunk", t)
        d = axis(dim, len(t.shape))
        return self.f_split(t, max(1, -(-t.shape[d] // n)), d)

    def f_tensor_split(self, t, n, dim=0):
        d = axis(dim, len(t.shape))
        q, r = divmod(t.shape[d], n)
        return self.f_split(t, [q + (i < r) for i in range(n)], d)

    def f_diagonal(self, t, *a, **k):
        n = min(t.shape[-2:])
        s = (*t.shape[:-2], n)
        return t.derive(("diagonal", sz(*s)), s)

    def f_diag(self, t, *a):
        self.need("diag", t)
        if len(t.shape) == 1:
            return self.like(t, T("diag", t.expr), (t.shape[0],) * 2)
        return self.f_diagonal(t)

    def f_diag_embed(self, t, *a, **k):
        return self.like(t, T("diag", t.expr), (*t.shape, t.shape[-1]))

    # ---- queries
    def f_size(self, t, dim=None):
        return t.shape if dim is None else t.shape[axis(dim, len(t.shape))]

    def f_numel(self, t):
        self.need("numel", t)
        return math.prod(t.shape)

    def f_dim(self, t):
        return len(t.shape)

    f_ndimension = f_dim

    def f_is_contiguous(self, t, *a, **k):
        return not any(s[0] in ("permute", "expand", "slice", "diagonal") for s in t.path)

    def f_is_floating_point(self, t):
        return t.dtype.is_floating_point

    def f_is_complex(self, t):
        return t.dtype.name.startswith("complex")

    def f_element_size(self, t):
        return t.dtype.itemsize

    def f_data_ptr(self, t):
        return Term("ptr", t.root.id, ty=int)

    def f_is_tensor(self, x):
        return isinstance(x, TT)

    def f_numpy_(self, t):
        return t

    def f_item(self, t):
        return self.number(t)

    def f_tolist(self, t):
        if not t.shape:
            return self.number(t)
        return [self.f_tolist(x) for x in t]

    def f_is_nonzero(self, t):
        return self.truth(t)

    def f_equal(self, a, b):
        self.need("equal", a, b)
        if a.shape != b.shape:
            return False
        if same(a.expr, b.expr):
            return True
        if not is_term(a.expr) and not is_term(b.expr):
            return False
        r = bool(P().truth(Term("allequal", *sorted((a.expr, b.expr), key=lambda t: (is_term(t), t._id if is_term(t) else 0)), ty=bool)))
        if r:
            self.equated(add(a.expr, b.expr, -1))
        return r

    def f_allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        self.need("allclose", a, b)
        broadcast(a.shape, b.shape)
        x, y = a.expr, b.expr
        d = add(x, y, -1)
        if not is_term(d):
            return abs(d) <= atol + rtol * abs(y if not is_term(y) else 0)
        if self.close:
            e = substitute(d, self.close)
            if not is_term(e):
                return abs(e) <= atol + rtol * abs(y if not is_term(y) else 0)
        key = leading(d)
        r = bool(P().truth(Term("allclose", key, rtol, atol, ty=bool)))
        if r and rtol <= 1e-5 and atol <= 1e-8:
            self.equated(d)
        return r

    def f_isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        self.need("isclose", a, b)
        return self.elementwise(lambda u, v: 1 if same(u, v) else int(math.isclose(u, v, rel_tol=rtol, abs_tol=atol)) if not is_term(u) and not is_term(v) else T("isclose", u, v, rtol, atol), a, b, dtype=models.DTYPES["bool"])

    # ---- several tensors
    def tensors_of(self, f, ts):
        ts = list(ts) if not isinstance(ts, TT) else list(ts)
        if not ts:
            raise RuntimeError(f"{f} expects a non-empty TensorList")
        for t in ts:
            if not isinstance(t, TT):
                raise TypeError(f"{f}(): expected Tensor as element, but got {type(t).__name__}")
        return ts

    def f_stack(self, ts, dim=0, **k):
        ts = self.tensors_of("stack", ts)
        if any(t.shape != ts[0].shape for t in ts):
            raise RuntimeError(f"stack expects each tensor to be equal size, but got {[tuple(t.shape) for t in ts]}")
        d = axis(dim, len(ts[0].shape) + 1)
        s = (*ts[0].shape[:d], len(ts), *ts[0].shape[d:])
        es = [t.expr for t in ts]
        if d == 0:
            return self.like(ts[0], T("stack", *es), s)
        return self.like(ts[0], T("stackdim", d, *es), s)

    def f_cat(self, ts, dim=0, **k):
        ts = self.tensors_of("cat", ts)
        d = axis(k.get("axis", dim), len(ts[0].shape))
        for t in ts:
            if len(t.shape) != len(ts[0].shape) or any(x != y for i, (x, y) in enumerate(zip(t.shape, ts[0].shape)) if i != d):
                raise RuntimeError("Sizes of tensors must match except in the concatenated dimension")
        s = list(ts[0].shape)
        s[d] = sum(t.shape[d] for t in ts)
        if len(ts) == 1:
            return self.like(ts[0], ts[0].expr, s)
        return self.like(ts[0], T("cat", d, *[t.expr for t in ts], tuple(t.shape[d] for t in ts)), s)

    def f_vstack(self, ts, **k):
        return self.f_cat([t if len(t.shape) > 1 else self.reshape(t, [1, -1]) for t in self.tensors_of("vstack", ts)], 0)

    def f_hstack(self, ts, **k):
        ts = self.tensors_of("hstack", ts)
        return self.f_cat(ts, 0 if len(ts[0].shape) <= 1 else 1)

    def f_meshgrid(self, *ts, indexing=None):
        ts = self.tensors_of("meshgrid", ts[0] if len(ts) == 1 and isinstance(ts[0], (list, tuple)) else ts)
        s = sz(*[t.shape[0] if t.shape else 1 for t in ts])
        return tuple(self.like(t, T("grid", t.expr, i, tuple(s)), s) for i, t in enumerate(ts))

    def f_broadcast_tensors(self, *ts):
        s = broadcast(*[t.shape for t in ts])
        return tuple(self.f_expand(t, *s) for t in ts)

    def f_where(self, c, x=None, y=None):
        self.need("where", c)
        if x is None:
            return tuple(self.like(c, T("nonzero", c.expr, i), (2,)) for i in range(len(c.shape)))
        return self.elementwise(lambda b, u, v: (u if b else v) if not is_term(b) else u if same(u, v) else T("where", b, u, v), c, x, y, dtype=(x if isinstance(x, TT) else y if isinstance(y, TT) else c).dtype)

    def f_clamp(self, t, min=None, max=None):
        self.need("clamp", t)
        xs = [t] + [x for x in (min, max) if x is not None]

        def f(u, *b):
            b = list(b)
            if min is not None:
                u = self.binary("maximum", u, b.pop(0))
            if max is not None:
                u = self.binary("minimum", u, b.pop(0))
            return u
        return self.elementwise(f, *xs)

    def f_clamp_min(self, t, m):
        return self.f_clamp(t, m)

    def f_clamp_max(self, t, m):
        return self.f_clamp(t, None, m)

    def extremum(self, f, t, a, k):
        self.need(f, t)
        if a and isinstance(a[0], TT):
            return self.function(f + "imum", (t, a[0]), {}, True, f)
        dim = a[0] if a else k.get("dim")
        if dim is None:
            return self.reduce("a" + f, (t,), {})
        v = self.reduce("a" + f, (t,), {"dim": dim, "keepdim": k.get("keepdim", False)})
        return collections.namedtuple(f, ("values", "indices"))(v, self.like(t, T(f"arg{f}", t.expr, dim), v.shape, models.DTYPES["int64"]))

    def f_max(self, t, *a, **k):
        return self.extremum("max", t, a, k)

    def f_min(self, t, *a, **k):
        return self.extremum("min", t, a, k)

    def f_argmax(self, t, dim=None, keepdim=False):
        return self.like(t, T("argmax", t.expr, dim), reduced(t.shape, dim, keepdim), models.DTYPES["int64"])

    def f_argmin(self, t, dim=None, keepdim=False):
        return self.like(t, T("argmin", t.expr, dim), reduced(t.shape, dim, keepdim), models.DTYPES["int64"])

    def pair(self, f, t, shape, *extra):
        return collections.namedtuple(f, ("values", "indices"))(self.like(t, T(f, t.expr, *extra), shape), self.like(t, T(f"arg{f}", t.expr, *extra), shape, models.DTYPES["int64"]))

    def f_kthvalue(self, t, k, dim=-1, keepdim=False):
        self.need("kthvalue", t)
        d = axis(dim, len(t.shape))
        n = t.shape[d] if t.shape else 1
        if is_term(k) or not isinstance(k, int):
            raise TypeError("kthvalue(): argument 'k' must be int")
        if not 1 <= k <= n:
            raise RuntimeError(f"kthvalue(): selected number k={k} out of range for dimension {d}")
        return self.pair("kthvalue", t, reduced(t.shape, d, keepdim) if t.shape else sz(), k, d)

    def f_sort(self, t, dim=-1, descending=False, stable=False):
        self.need("sort", t)
        return self.pair("sort", t, t.shape, axis(dim, len(t.shape)), bool(descending))

    def f_msort(self, t):
        self.need("msort", t)
        return self.pair("sort", t, t.shape, 0, False)[0]

    def f_argsort(self, t, dim=-1, descending=False, stable=False):
        self.need("argsort", t)
        return self.pair("sort", t, t.shape, axis(dim, len(t.shape)), bool(descending))[1]

    def f_topk(self, t, k, dim=-1, largest=True, sorted=True):
        s = list(t.shape)
        s[axis(dim, len(s))] = k
        return self.pair("topk", t, sz(*s), k, dim, largest)

    def f_median(self, t, dim=None, keepdim=False):
        if dim is None:
            return self.like(t, T("median", t.expr), ())
        return self.pair("median", t, reduced(t.shape, dim, keepdim), dim)

    def f_quantile(self, t, q, dim=None, keepdim=False, **k):
        return self.like(t, T("quantile", t.expr, self.freeze(q), dim), (*shp(q), *reduced(t.shape, dim, keepdim)))

    f_nanquantile = f_quantile

    def f_gather(self, t, dim, index, **k):
        self.need("gather", t, index)
        e, i = t.expr, index.expr
        if is_term(e) and is_term(i) and e._op == "sort" and i._op == "argsort" and is_term(i._args[0]) and i._args[0]._op == "argsort" and e._args[1:] == (dim % max(len(t.shape), 1), False) == i._args[1:] == i._args[0]._args[1:] and same(e._args[0], i._args[0]._args[0]):
            return self.like(t, e._args[0], index.shape)          # sorted, then put back
        return self.like(t, T("gather", t.expr, dim, index.expr) if is_term(t.expr) else t.expr, index.shape)

    def f_index_select(self, t, dim, index):
        s = list(t.shape)
        s[axis(dim, len(s))] = index.shape[0]
        return self.like(t, T("index_select", t.expr, dim, index.expr), s)

    def f_masked_select(self, t, m):
        return self.like(t, T("masked_select", t.expr, m.expr), (2,))

    def f_take_along_dim(self, t, index, dim=None):
        return self.f_gather(t, dim, index)

    def f_unique(self, t, *a, **k):
        return self.like(t, T("unique", t.expr), (2,))

    def f_cumsum(self, t, dim, **k):
        return self.like(t, T("cumsum", t.expr, dim))

    def f_roll(self, t, *a, **k):
        return self.like(t, T("roll", t.expr, *[self.freeze(x) for x in a]))

    def f_flip(self, t, *d):
        return self.like(t, T("flip", t.expr, tuple(size_args(d))))

    # ---- products
    def f_matmul(self, a, b):
        self.need("matmul", a, b)
        s = matmul_shape(a.shape, b.shape)
        return self.like(a, self.product(a.expr, b.expr), s)

    def product(self, x, y):
        if not is_term(x) and x == 0 or not is_term(y) and y == 0:
            return 0
        r = 0
        for m, c in terms.poly(x).items():
            for n, d in terms.poly(y).items():
                r = add(r, mul(num(Fraction(c) * Fraction(d)), self.mm(m, n)))
        return r

    def mm(self, m, n):
        one = lambda ts: functools.reduce(mul, ts, 1)
        u, v = one(m), one(n)
        if is_term(u) and u._op == "eye":
            return v
        if is_term(v) and v._op == "eye":
            return u
        # left-associated chain
        if is_term(v) and v._op == "@":
            return T("@", self.mm(m, (v._args[0],)) if is_term(v._args[0]) else v._args[0], v._args[1])
        return T("@", u, v)

    f_mm = f_bmm = f_mv = f_linalg_matmul = f_matmul

    def f_dot(self, a, b):
        return self.reduce("sum", (self.function("mul", (a, b), {}, True, "mul"),), {})

    f_vdot = f_inner = f_linalg_vecdot = f_dot

    def f_outer(self, a, b):
        return self.function("mul", (self.f_unsqueeze(a, 1), b), {}, True, "mul")

    def f_addmm(self, t, a, b, beta=1, alpha=1):
        p = self.f_matmul(a, b)
        return self.elementwise(lambda x, y: add(mul(val(beta), x), mul(val(alpha), y)), t, p)

    def f_nn_functional_linear(self, x, w, bias=None):
        r = self.f_matmul(x, self.f_t(w))
        return r if bias is None else r + bias

    def f_einsum(self, eq, *ts):
        ts = ts[0] if len(ts) == 1 and isinstance(ts[0], (list, tuple)) else ts
        ins, _, out = eq.replace(" ", "").partition("->")
        dims = {}
        for spec, t in zip(ins.split(","), ts):
            if "." in spec or len(spec) != len(t.shape):
                raise EngineError("einsum form")
            for c, n in zip(spec, t.shape):
                if dims.setdefault(c, n) != n:
                    raise RuntimeError("einsum(): operands do not broadcast")
        return self.like(ts[0], T("einsum", eq.replace(" ", ""), *[t.expr for t in ts]), [dims[c] for c in out])

    def f_kron(self, a, b):
        n = max(len(a.shape), len(b.shape))
        x, y = (1,) * (n - len(a.shape)) + tuple(a.shape), (1,) * (n - len(b.shape)) + tuple(b.shape)
        return self.like(a, T("kron", a.expr, b.expr), [i * j for i, j in zip(x, y)])

    def f_nn_functional_conv2d(self, x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
        self.need("conv2d", x, w)
        if len(x.shape) != 4 or len(w.shape) != 4 or x.shape[1] != w.shape[1] * groups:
            raise RuntimeError(f"conv2d: sizes {tuple(x.shape)} and {tuple(w.shape)} do not fit")
        hw = []
        for i in (2, 3):
            st, pd, dl = (v[i - 2] if isinstance(v, (tuple, list)) else v for v in (stride, padding, dilation))
            hw.append((x.shape[i] + 2 * pd - dl * (w.shape[i] - 1) - 1) // st + 1)
        key = (stride, padding, dilation, groups)
        c = 1
        xe, we = x.expr, w.expr
        return self.like(x, T("conv2d", xe, we, *([] if key == (1, 0, 1, 1) else [self.freeze(key)])), (x.shape[0], w.shape[0], *hw))

    f_conv2d = f_nn_functional_conv2d

    # ---- norms and similar
    def f_linalg_norm(self, t, ord=None, dim=None, keepdim=False, **k):
        return self.reduce("norm", (t, 2 if ord is None else ord), {"dim": dim, "keepdim": keepdim})

    f_linalg_vector_norm = f_linalg_norm

    def f_dist(self, a, b, p=2):
        self.need("dist", a, b)
        d = self.function("sub", (a, b), {}, True, "sub")
        e = d.expr
        if is_term(e):
            q = terms.poly(e)
            lead = min(q, key=lambda m: (len(m), tuple(t._id for t in m)))
            if q[lead] < 0:
                e = mul(-1, e)
        else:
            e = abs(e)
        return self.reduce("norm", (self.like(d, e), p), {})

    def f_nn_functional_normalize(self, t, p=2.0, dim=1, eps=1e-12):
        return self.like(t, T("normalize", t.expr, num(p), axis(dim, len(t.shape)), num(eps)))

    def f_nn_functional_cosine_similarity(self, a, b, dim=1, eps=1e-8):
        self.need("cosine_similarity", a, b)
        s = broadcast(a.shape, b.shape)
        d = axis(dim, len(s))
        x, y = sorted((a.expr, b.expr), key=lambda t: (is_term(t), t._id if is_term(t) else 0))
        if is_term(x) and same(x, y):
            return self.like(a, 1, reduced(s, d, False) if s else s)
        return self.like(a, T("cosine_similarity", x, y, d, num(eps)), reduced(s, d, False) if s else s)

    f_cosine_similarity = f_nn_functional_cosine_similarity

    def f_softmax(self, t, dim=None, **k):
        return self.like(t, T("softmax", t.expr, dim))

    f_nn_functional_softmax = f_softmax

    def f_cov(self, t, correction=1, **k):
        n = t.shape[0] if len(t.shape) > 1 else 0
        return self.like(t, T("cov", t.expr, correction), (n, n) if n else ())

    def f_corrcoef(self, t):
        return self.like(t, T("corrcoef", t.expr), (t.shape[0],) * 2 if len(t.shape) > 1 else ())

    def square_matrix(self, f, t):
        self.need(f, t)
        if len(t.shape) < 2 or t.shape[-1] != t.shape[-2]:
            raise RuntimeError(f"{f}: A must be batches of square matrices")

    def f_linalg_matrix_power(self, t, n):
        self.square_matrix("matrix_power", t)
        if is_term(n) or not isinstance(n, int):
            raise TypeError("matrix_power(): argument 'n' must be int")
        if n == 0:
            return self.like(t, T("eye", t.shape[-1], t.shape[-1]))
        if n == 1:
            return self.like(t, t.expr)
        return self.like(t, T("matrix_power", t.expr, n))

    f_matrix_power = f_linalg_matrix_power

    def f_linalg_inv(self, t):
        self.square_matrix("inv", t)
        return self.like(t, T("inv", t.expr))

    f_inverse = f_linalg_inv

    def f_linalg_pinv(self, t, *a, **k):
        return self.like(t, T("pinv", t.expr), (*t.shape[:-2], t.shape[-1], t.shape[-2]))

    def f_linalg_det(self, t):
        self.square_matrix("det", t)
        return self.like(t, T("det", t.expr), t.shape[:-2])

    f_det = f_linalg_det

    def f_trace(self, t):
        return self.like(t, T("trace", t.expr), ())

    def f_linalg_matrix_exp(self, t):
        self.square_matrix("matrix_exp", t)
        return self.like(t, T("matrix_exp", t.expr))

    f_matrix_exp = f_linalg_matrix_exp

    def f_linalg_svdvals(self, t):
        return self.like(t, T("linalg.svd.1", t.expr), (*t.shape[:-2], min(t.shape[-2:])))

    def f_linalg_householder_product(self, a, tau):
        return self.like(a, T("householder", a.expr, tau.expr))

    def f_linalg_solve(self, a, b):
        return self.like(b, T("solve", a.expr, b.expr))

    def f_svd_lowrank(self, t, q=6, niter=2, M=None):
        self.draw(self.globals["torch"], "svd_lowrank", (), (1,))
        m, n = t.shape[-2:]
        u = self.prog.uid()
        return tuple(self.like(t, T("svd_lowrank", t.expr, i, u), s) for i, s in enumerate(((m, q), (q,), (n, q))))

    # ---- fft
    def fft(self, f, t, s, dim, half):
        self.need(f, t)
        shape = list(t.shape)
        dims = list(range(len(shape))) if dim is None else [axis(d, len(shape)) for d in (dim if isinstance(dim, (tuple, list)) else [dim])]
        if s is not None:
            s = [s] if isinstance(s, int) else list(s)
            if dim is None:
                dims = dims[-len(s):] if s else []
            for d, n in zip(dims, s):
                shape[d] = n
        if not dims:
            raise RuntimeError(f"{f} must transform at least one axis")
        if half == 1:
            shape[dims[-1]] = shape[dims[-1]] // 2 + 1
        elif half == -1 and s is None:
            shape[dims[-1]] = 2 * (shape[dims[-1]] - 1)
        inv = f.startswith("i")
        fwd, tag = f.lstrip("i"), tuple(dims)
        e = t.expr
        r = 0
        for m, c in terms.poly(e).items():                       # linear
            x = functools.reduce(mul, m, 1)
            if is_term(x) and inv and x._op == fwd and tuple(x._args[1]) == tag and tuple(x._args[2]) == tuple(shape):
                r = add(r, mul(c, x._args[0]))
            else:
                r = add(r, mul(c, T(f, x, tag, tuple(shape) if inv else tuple(t.shape))))
        return self.like(t, r, shape, models.DTYPES["float32" if half == -1 else "complex64"])

    for _n, _h in (("fftn", 0), ("ifftn", 0), ("rfftn", 1), ("irfftn", -1), ("fft2", 0), ("ifft2", 0), ("rfft2", 1), ("irfft2", -1)):
        locals()[f"f_fft_{_n}"] = lambda self, t, s=None, dim=None, norm=None, _n=_n, _h=_h: self.fft(_n, t, s, dim if dim is not None or not _n.endswith("2") else (-2, -1), _h)
    for _n, _h in (("fft", 0), ("ifft", 0), ("rfft", 1), ("irfft", -1)):
        locals()[f"f_fft_{_n}"] = lambda self, t, n=None, dim=-1, norm=None, _n=_n, _h=_h: self.fft(_n, t, None if n is None else [n], (dim,), _h)

    # ---- the rest of the library
    def f_device(self, *a):
        return self.device(a[0] if a else "cpu")

    def f_is_grad_enabled(self):
        return False

    def f_cuda_is_available(self):
        return NotImplemented

    def f_finfo(self, d):
        import types
        return types.SimpleNamespace(eps=2.0 ** -23, max=3.4e38, min=-3.4e38, tiny=1.2e-38)

    def f_no_grad(self, *a):
        return NotImplemented

    f_inference_mode = f_enable_grad = f_set_grad_enabled = f_no_grad
    f_set_num_threads = f_get_num_threads = f_set_default_dtype = f_get_default_dtype = f_no_grad

    def f_isin(self, *a, **k):
        return self.unknown("isin", a, k)


class NpType(models.dtype):
    def __call__(self, x=0):
        if isinstance(x, TT):
            return lib().like(x, x.expr, None, self)
        if is_term(x):
            return x
        return bool(x) if self.name.startswith("bool") else float(x) if self.is_floating_point else int(x)


def _operators():
    def b(op, swap=False):
        def f(self, o):
            return lib().binary_op(op, o, self) if swap else lib().binary_op(op, self, o)
        return f

    def i(op):
        def f(self, o):
            r = lib().binary_op(op, self, o)
            if r is NotImplemented:
                return r
            if broadcast(self.shape, shp(o)) != self.shape:
                raise RuntimeError("output shape does not match the broadcast shape")
            self.write(r.expr)
            return self
        return f
    for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**"), ("matmul", "@"), ("and", "&"), ("or", "|"), ("xor", "^"), ("lshift", "<<"), ("rshift", ">>")):
        setattr(TT, f"__{n}__", b(op))
        setattr(TT, f"__r{n}__", b(op, True))
        if n != "matmul":
            setattr(TT, f"__i{n}__", i(op))
    for n, op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
        setattr(TT, f"__{n}__", b(op))
    TT.__neg__ = lambda self: lib().call("neg", (self,), {})
    TT.__pos__ = lambda self: self
    TT.__abs__ = lambda self: lib().call("abs", (self,), {})
    TT.__invert__ = lambda self: lib().call("logical_not", (self,), {})
    TT.__round__ = lambda self, n=None: lib().call("round", (self,), {})


_operators()


def install(p):
    TensorLib(p)
