"""Abstract values of the analysis: hash-consed symbolic terms.

A Term stands for a run-time value that the source does not determine.  It is
never given a concrete run-time value; operations on it build bigger terms
(value numbering), and a branch on it makes the analysis split the trace.
"""
import itertools
from fractions import Fraction

PROG = None          # the Program being analysed (set by engine.Program)


class ControlFlow(BaseException):
    """Signals of the analyser itself; never visible to the analysed program."""


class PathEnd(ControlFlow):
    """The current trace is abandoned (infeasible or no longer interesting)."""


class EngineError(ControlFlow):
    """The analyser cannot interpret a construct: the check must give no verdict."""


_table = {}
_ids = itertools.count()


class Term:
    __slots__ = ("_op", "_args", "_ty", "_id", "__weakref__")

    def __new__(cls, op, *args, ty=None):
        key = (op, tuple(_key(a) for a in args), ty if isinstance(ty, type) else None)
        self = _table.get(key)
        if self is None:
            self = object.__new__(cls)
            self._op, self._args, self._ty = op, args, ty
            self._id = next(_ids)
            _table[key] = self
        return self

    # -- python protocol: every operation yields another term ---------------
    @property
    def __class__(self):
        return self._ty if isinstance(self._ty, type) else Term

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return id(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return PROG.term_attr(self, name)

    def __setattr__(self, name, value):
        if name in Term.__slots__:
            object.__setattr__(self, name, value)
        else:
            PROG.term_setattr(self, name, value)

    def __delattr__(self, name):
        PROG.emit("delattr", obj=self, name=name)

    def __call__(self, *args, **kwargs):
        return PROG.term_call(self, args, kwargs)

    def __iter__(self):
        return PROG.term_iter(self)

    def __next__(self):
        return PROG.term_call(Term("attr", self, "__next__"), (), {})

    def __getitem__(self, i):
        return PROG.term_index(self, i)

    def __setitem__(self, i, v):
        PROG.emit("setitem", obj=self, key=i, value=v)

    def __delitem__(self, i):
        PROG.emit("delitem", obj=self, key=i)

    def __contains__(self, x):
        return bool(Term("in", x, self))

    def __enter__(self):
        return PROG.term_enter(self)

    def __exit__(self, *exc):
        return PROG.term_exit(self, exc)

    def __bool__(self):
        return PROG.truth(self)

    def __eq__(self, other):
        return eq(self, other)

    def __ne__(self, other):
        return negate(eq(self, other))

    def __lt__(self, o):
        return lt(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __le__(self, o):
        return negate(lt(o, self))

    def __ge__(self, o):
        return negate(lt(self, o))

    def __neg__(self):
        return mk("*", -1, self) if numeric(self) else Term("neg", self, ty=self._ty)

    def __pos__(self):
        return self

    def __abs__(self):
        return Term("abs", self, ty=self._ty)

    def __invert__(self):
        return Term("inv", self, ty=self._ty)

    def __round__(self, n=None):
        return Term("round", self, n, ty=int if n is None else self._ty)


def _op(name, sym):
    def f(self, o):
        return mk(sym, self, o)

    def r(self, o):
        return mk(sym, o, self)

    def i(self, o):
        return PROG.term_inplace(sym, self, o)

    setattr(Term, f"__{name}__", f)
    setattr(Term, f"__r{name}__", r)
    setattr(Term, f"__i{name}__", i)


for _n, _s in [("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"),
               ("pow", "**"), ("matmul", "@"), ("and", "&"), ("or", "|"), ("xor", "^"), ("lshift", "<<"),
               ("rshift", ">>")]:
    _op(_n, _s)


def _key(a):
    if isinstance(a, Term):
        return ("T", object.__getattribute__(a, "_id"))
    if type(a) in (int, float, str, bytes, bool, type(None), type(Ellipsis)):
        return (type(a).__name__, a)
    if type(a) is tuple:
        return ("t", tuple(_key(x) for x in a))
    if type(a) is Fraction:
        return ("q", a.numerator, a.denominator)
    if type(a) is list:
        return ("l", tuple(_key(x) for x in a))
    if type(a) is slice:
        return ("s", _key(a.start), _key(a.stop), _key(a.step))
    if type(a) is dict:
        return ("d", tuple((_key(k), _key(v)) for k, v in a.items()))
    return ("o", id(a), _keep(a))


_kept = {}


def _keep(a):
    _kept[id(a)] = a           # keep alive so that ids stay unique
    return type(a).__name__


def is_term(x):
    return type(x) is Term


def contains_term(x, depth=3):
    if type(x) is Term:
        return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(contains_term(e, depth - 1) for e in x)
    if depth and isinstance(x, dict):
        return any(contains_term(k, depth - 1) or contains_term(v, depth - 1) for k, v in x.items())
    if type(x) is slice:
        return any(type(e) is Term for e in (x.start, x.stop, x.step))
    return False


NUM = (int, float)


def ty_of(x):
    return x._ty if type(x) is Term else type(x)


def numeric(x):
    t = ty_of(x)
    return isinstance(t, type) and issubclass(t, NUM)


def mk(op, a, b):
    ta, tb = ty_of(a), ty_of(b)
    if op == "+" and str in (ta, tb):
        return concat(a, b)
    if op == "%" and isinstance(a, str):
        return Term("strmod", a, b, ty=str)
    r = PROG.term_binop(op, a, b) if PROG is not None else None
    if r is not None:
        return r
    if numeric(a) and numeric(b):
        ty = float if float in (ta, tb) or op == "/" else int
        if op in ("+", "-", "*"):
            return poly_term(poly_bin(op, poly(a), poly(b)), ty)
        return Term(op, a, b, ty=ty)
    ty = None
    if ta is not None and (tb is None or numeric(b) or ta is tb) and not numeric(a):
        ty = ta
    elif tb is not None and not numeric(b):
        ty = tb
    return Term(op, a, b, ty=ty)


# ---- symbolic strings --------------------------------------------------------
def concat(*parts):
    out = []
    for p in parts:
        ps = p._args if type(p) is Term and p._op == "concat" else [p]
        for q in ps:
            if type(q) is not Term and q == "":
                continue
            if out and type(q) is not Term and type(out[-1]) is not Term:
                out[-1] = out[-1] + q
            else:
                out.append(q)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return Term("concat", *out, ty=str)


# ---- linear / polynomial normal form ----------------------------------------
def poly(x):
    """x as {monomial (tuple of (term id, term) sorted) : coefficient}"""
    if type(x) is not Term:
        return {(): x} if x != 0 else {}
    if x._op == "poly":
        return dict(x._args[0])
    return {(x,): 1}


def poly_bin(op, p, q):
    if op == "*":
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = tuple(sorted(m1 + m2, key=lambda t: t._id))
                r[m] = r.get(m, 0) + c1 * c2
    else:
        s = 1 if op == "+" else -1
        r = dict(p)
        for m, c in q.items():
            r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c != 0}


def poly_term(p, ty=int):
    if not p:
        return 0
    if set(p) == {()}:
        return p[()]
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(p.items(), key=lambda mc: tuple(t._id for t in mc[0])))
    return Term("poly", items, ty=ty)


def diff(a, b):
    return poly_bin("-", poly(a), poly(b))


def same(a, b):
    """a and b denote the same value on every execution (structural / polynomial)."""
    if a is b:
        return True
    if numeric(a) and numeric(b):
        return not diff(a, b)
    if type(a) is Term or type(b) is Term:
        return _key(a) == _key(b)
    if type(a) in (tuple, list) and type(b) in (tuple, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return type(a) is type(b) and bool(a == b)
    except Exception:
        return False


RIGID = ("atom", "ext")


def eq(a, b):
    if a is b:
        return True
    if numeric(a) and numeric(b):
        d = diff(a, b)
        if not d:
            return True
        if set(d) == {()}:
            return False
        if PROG is not None:
            r = PROG.eq_facts(d)
            if r is not None:
                return r
        lead = min(d, key=lambda m: (len(m), tuple(t._id for t in m)))
        if d[lead] < 0:
            d = {m: -c for m, c in d.items()}
        return Term("eq0", poly_term(d), ty=bool)
    ra = type(a) is Term and a._op in RIGID
    rb = type(b) is Term and b._op in RIGID
    if ra and (rb or type(b) is not Term) or rb and type(a) is not Term:
        return False
    if (a is None or b is None) and (ty_of(a) not in (None, type(None)) and ty_of(b) not in (None, type(None))):
        return False
    if str in (ty_of(a), ty_of(b)) and PROG is not None:
        r = PROG.str_eq(a, b)
        if r is not None:
            return r
    x, y = sorted((a, b), key=lambda t: (type(t) is not Term, t._id if type(t) is Term else repr(t)))
    return Term("eq", x, y, ty=bool)


def lt(a, b):
    if numeric(a) and numeric(b):
        d = diff(a, b)
        if not d:
            return False
        if set(d) == {()}:
            return d[()] < 0
        if PROG is not None:
            r = PROG.lt_facts(d)
            if r is not None:
                return r
        return Term("lt0", poly_term(d), ty=bool)
    return Term("lt", a, b, ty=None if not numeric(a) and not numeric(b) else None)


def negate(c):
    if type(c) is not Term:
        return not c
    if c._op == "not":
        return c._args[0]
    return Term("not", c, ty=c._ty)


def show(x, depth=4):
    if type(x) is not Term:
        if type(x) is list:
            return "[" + ", ".join(show(e, depth - 1) for e in x) + "]"
        if type(x) is tuple:
            return "(" + ", ".join(show(e, depth - 1) for e in x) + ")"
        return repr(x)
    op, args = x._op, x._args
    if op in ("sym", "atom", "ext"):
        return str(args[0])
    if depth <= 0:
        return "…"
    if op == "attr":
        return f"{show(args[0], depth - 1)}.{args[1]}"
    if op == "poly":
        return " + ".join((f"{c}*" if c != 1 or not m else "") + "*".join(show(t, depth - 1) for t in m)
                          if m else str(c) for m, c in args[0])
    if op in ("call", "icall"):
        a = [show(v, depth - 1) for v in args[1]] + [f"{k}={show(v, depth - 1)}" for k, v in args[2]]
        return f"{show(args[0], depth)}({', '.join(a)})"
    if op == "index":
        return f"{show(args[0], depth - 1)}[{show(args[1], depth - 1)}]"
    if op == "eq0":
        return f"{show(args[0], depth - 1)} == 0"
    if op == "lt0":
        return f"{show(args[0], depth - 1)} < 0"
    if op == "not":
        return f"not ({show(args[0], depth)})"
    if len(args) == 2 and not op.isalnum():
        return f"({show(args[0], depth - 1)} {op} {show(args[1], depth - 1)})"
    return f"{op}({', '.join(show(a, depth - 1) for a in args)})"


def walk(x, seen=None):
    """All sub-terms of x (through containers)."""
    if seen is None:
        seen = set()
    if type(x) is Term:
        if x._id in seen:
            return
        seen.add(x._id)
        yield x
        for a in x._args:
            yield from walk(a, seen)
    elif type(x) in (list, tuple, set, frozenset):
        for a in x:
            yield from walk(a, seen)
    elif type(x) is dict:
        for k, v in x.items():
            yield from walk(k, seen)
            yield from walk(v, seen)
    elif type(x) is slice:
        for a in (x.start, x.stop, x.step):
            yield from walk(a, seen)
