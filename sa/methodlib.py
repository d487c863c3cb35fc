"""Abstract merges with a merge method on abstract tensors, through the public API."""
import collections
import itertools
from . import tensorlib, terms
from .common import *
from .engine import ControlFlow
from .mergelib import World
from .tensorlib import TT

OPTS = dict(merge_dtype=None, merge_device=None, output_dtype=None, output_device=None, check_mandatory_keys=False, strict_weight_space=False, threads=0, check_finite=False)


class Spec:
    def __init__(self, models, vararg, options):
        self.models, self.vararg, self.options = models, vararg, options

    def __repr__(self):
        return f"Spec({self.models}, {self.vararg}, {self.options})"


class Methods:
    def __init__(self):
        self.w = World(tensorlib.install)
        self.prog = p = self.w.prog
        self.lib = p.tensors
        self.mm = p.load("sd_mecha.extensions.merge_methods")
        self.resolve = anchor(p, "sd_mecha.extensions.merge_methods.resolve")
        self.all = anchor(p, "sd_mecha.extensions.merge_methods.get_all")
        self.vn = p.getattr

    def methods(self):
        return {p_id: m for m in self.prog.call(self.all, (), {}) for p_id in [self.prog.getattr(m, "identifier")]}

    def spec(self, mm):
        """what a merge method takes: Spec"""
        p = self.prog
        get = lambda n: p.call(p.getattr(mm, n), (), {})
        fa = lambda x: (list(p.getattr(x, "args")), p.getattr(x, "vararg") if p.call(p.getattr(x, "has_varargs"), (), {}) else None, dict(p.getattr(x, "kwargs")))
        names, spaces, types, defaults = fa(get("get_param_names")), fa(get("get_input_merge_spaces")), fa(get("get_input_types")), fa(get("get_default_args"))

        def space(x):
            if hasattr(x, "identifier") and isinstance(x.identifier, str):
                return x.identifier
            ids = sorted(p.getattr(y, "identifier") for y in (x if isinstance(x, (set, frozenset)) else p.iterate(p.getattr(x, "merge_spaces"))))
            return "weight" if "weight" in ids else ids[0]
        models, options = [], []
        n = len(names[0]) - len(defaults[0])
        for i, (a, s, t) in enumerate(zip(names[0], spaces[0], types[0])):
            if i < n:
                models.append((a, space(s), t))
            else:
                options.append((a, t, defaults[0][i - n]))
        for k in names[2]:
            if k in defaults[2]:
                options.append((k, types[2][k], defaults[2][k]))
            else:
                models.append((k, space(spaces[2][k]), types[2][k]))
        return Spec(models, space(spaces[1]) if names[1] is not None else None, options)

    def config(self, keys=("k",), identifier="arch-impl"):
        return self.w.config({k: ((), False) for k in keys}, identifier)

    def model(self, name, shape, space="weight", config=None, keys=("k",), dtype="float32", suffix=True):
        """an in-memory model whose tensors are the atoms name.key"""
        ts = {k: self.lib.input(f"{name}.{k}" if len(keys) > 1 else name, shape, dtype) for k in keys}
        return self.w.literal(ts, config, space) if False else self.prog.call(self.w.literal, (ts, config or self.config(keys), space), {})

    def merge(self, node, **opts):
        return self.w.run(node, **{**OPTS, **opts})

    def each(self, entry, max_paths=400):
        """traces of entry(), with what happened to tensors"""
        p, lib = self.prog, self.lib

        def run():
            self.w.fresh()
            lib.reset()
            return entry()
        n = 0
        for path in p.explore(run, max_paths=1 << 60):
            yield path
            n += 1
            if n >= max_paths:
                return

    # ---- cases
    def cases(self, tier, skip=(), only=None):
        """(method name, options, shape) over all registered methods of tensors"""
        out = []
        for name, mm in sorted(self.methods().items()):
            if name in SPECIAL or name.startswith("convert") or name in skip or only is not None and name not in only:
                continue
            spec = self.spec(mm)
            if any("str" in str(t) for _, _, t in spec.models):
                continue
            for o in combinations(spec, tier):
                single = len(o) < 2 + ("maxiter" in o)
                for shape in SHAPES if tier == "thorough" or single and len(spec.options) <= 4 else SHAPES[:5] if single else SHAPES[2:5:2]:
                    for n in ((2, 3) if tier == "thorough" else (3,)) if spec.vararg else (0,):
                        out.append((name, o, shape, n))
        return out

    def inputs(self, case, keys=("k",), config=None):
        """the models and options of a case: (positional nodes, options, {name: {key: tensor}})"""
        name, options, shape, n = case
        spec = self.spec(self.methods()[name])
        config = config or self.config(keys)
        held = {}

        def model(x, space):
            ts = {k: self.lib.input(f"{x}.{k}", shape) for k in keys}
            held[x] = ts
            return self.prog.call(self.w.literal, (ts, config, space), {})
        args = [model(x, s) for x, s, _ in spec.models]
        if spec.vararg:
            args += [model(f"m{i}", spec.vararg) for i in range(n)]
        kw = {k: model(k, "param") if v is TENSOR else v for k, v in options.items()}
        return args, kw, held

    def node(self, name, args, kw):
        return self.prog.call(self.methods()[name], tuple(args), kw)


def told(case):
    name, options, shape, n = case
    o = ", ".join(f"{k}={'tensor' if v is TENSOR else v}" for k, v in sorted(options.items()))
    return f"{name}({o}) of shape {tuple(shape)}" + (f" with {n} models" if n else "")


SPECIAL = {"fallback", "pick_component", "omit_component", "exchange_ema"}      # decided by other checks


SHAPES = ((), (4,), (3, 4), (4, 3), (2, 3, 3, 3), (2, 3, 2), (4, 2, 1, 1), (1,), (1, 1), (1, 4), (4, 1), (2, 14), (1, 1, 3, 3))
FLOATS = (0.0, 0.25, 0.5, 1.0)
VALUES = {                                            # where the general values are not allowed or not enough
    "width": (0.0, 0.25, 0.75, 1.0, -0.25, 2.0), "offset": (0.0, 0.25, 0.75, -0.25, 1.5), "alignment": (0.0, 0.25, 1.0, 2.0, -1.0, 1.5), "tilt": (0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.5),
    "overlap": (0.0, 0.25, 0.5, 1.0), "maxiter": (0, 1), "eps": (1e-6,), "cos_eps": (1e-6,), "ftol": (1e-20,), "seed": (None, 0, 7), "k": (0.25, 0.5, 1.0), "rescale": (0.0, 1.0), "rank_ratio": (0.0, 0.25, 0.5, 1.0),
    "device": (None, "cpu"), "dtype": (None, "float16"),
}
TENSOR = object()                                     # a tensor of another model


def values(name, typ, default):
    if name in VALUES:
        return VALUES[name]
    t = str(typ)
    if "Tensor" in t:
        return (0.0, 0.25, 1.0, TENSOR)
    if "bool" in t:
        return (False, True)
    if "float" in t:
        return FLOATS
    if "int" in t:
        return (0, 1, 3)
    return (default,)


def combinations(spec, tier):
    """option assignments: the defaults, every value of each option, and every pair of values of two options"""
    vs = {n: values(n, t, d) for n, t, d in spec.options}
    base = {n: 1 for n in vs if n == "maxiter"}
    out = [dict(base)]
    for n, xs in vs.items():
        out += [{**base, n: x} for x in xs]
    for (n, xs), (m, ys) in itertools.combinations(vs.items(), 2):
        pairs = list(itertools.product(xs, ys))
        if tier != "thorough" and len(vs) > 4:
            pairs = [(x, y) for x, y in pairs if {n, m} <= {"apply_stock", "apply_median", "vote_sgn", "no_rescale"}] + ([] if {n, m} - {"probability", "overlap", "overlap_emphasis"} else pairs)
        out += [{**base, n: x, m: y} for x, y in pairs]
    seen, res = set(), []
    for o in out:
        k = repr(sorted((a, id(b) if b is TENSOR else b) for a, b in o.items()))
        if k not in seen:
            seen.add(k)
            res.append(o)
    return res


METHODS = []


def methods():
    if not METHODS:
        METHODS.append(Methods())
    return METHODS[0]


def sweep(m, cases, judge, chunks=64):
    """judge(case) -> (counts, [(rule, ok, construct, loc, message, trace)]) over all cases, in parallel; the merged results"""
    groups = [cases[i::chunks] for i in range(min(chunks, len(cases)))]

    def work(group):
        counts, out = collections.Counter(), []
        for c in group:
            n, res = judge(c)
            counts.update(n)
            for r in res:
                if r[1]:
                    counts["ok " + r[0]] += 1
                else:
                    out.append(r)
        return counts, out
    counts, bad = collections.Counter(), []
    for n, o in parallel([lambda g=g: work(g) for g in groups]):
        counts.update(n)
        bad += o
    return counts, bad


def loc_of(m, name):
    return f"merge method {name}"
