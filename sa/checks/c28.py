import itertools
from ..mergelib import *

LEVEL = "other"
RULES = {
    "chain": "convert applies, in order, registered conversions that lead from the config of the recipe to the requested config, starting with the given recipe",
    "shortest": "no shorter chain of registered conversions exists",
    "none": "ValueError is raised exactly when no chain exists or a config is not known, also from structural recipes",
    "same": "a recipe that already is in the requested config is returned as it is",
}
EXPLANATION = ("Abstract interpretation of convert over every directed graph of conversions between three configs, every graph between four configs up to renaming (in two "
               "registration orders), and larger chains, cycles and parallel conversions; every pair of configs, each way of naming the target and each kind of recipe. The oracle "
               "is a breadth-first search of its own over the declared conversions; the returned nodes are read through their public attributes.")
ASSUMPTIONS = ["a conversion is picked only by the configs it declares: graphs between five or more configs behave like the ones enumerated"]

SOURCE = '''
from sd_mecha import *
from sd_mecha.extensions.merge_methods import *
from sd_mecha.extensions import model_configs
from torch import Tensor

def register(name, src, tgt):
    @merge_method(identifier=name, is_conversion=True)
    def conversion(a: Parameter(StateDict[Tensor], model_config=src), **kwargs) -> Return(Tensor, model_config=tgt):
        return a[kwargs["key"]]
    return conversion

@merge_method(register=False)
def pair(a: Parameter(Tensor), b: Parameter(Tensor)) -> Return(Tensor):
    return a + b
'''


def distance(edges, a, b):
    seen, d, front = {a}, 0, {a}
    while front:
        if b in front:
            return d
        front = {y for x, y in edges if x in front} - seen
        seen |= front
        d += 1
    return None


def graphs(n):
    """directed graphs of n nodes, one per isomorphism class"""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    seen = set()
    for bits in range(1 << len(pairs)):
        es = tuple(p for k, p in enumerate(pairs) if bits >> k & 1)
        key = min(tuple(sorted((q[a], q[b]) for a, b in es)) for q in itertools.permutations(range(n)))
        if key not in seen:
            seen.add(key)
            yield es


def check(rep, tier):
    w = shared()
    p = w.prog
    convert = anchor(p, "sd_mecha.convert")
    Merge = anchor(p, "sd_mecha.recipe_nodes.MergeRecipeNode")
    m = p.source("conversions", SOURCE)
    anchor(p, "sd_mecha.extensions.merge_methods.get_all_converters")
    register_config = anchor(p, "sd_mecha.extensions.model_configs.register")

    def cid(i):
        return f"graph{i}-impl"

    def look(node, start, src, tgt, edges, methods):
        """(rule, problem) of a returned recipe, or None"""
        chain, cur = [], node
        while cur is not start and isinstance(cur, Merge):
            mm = p.getattr(cur, "merge_method")
            if mm not in methods:
                return "chain", f"applies {p.getattr(mm, 'identifier')}, which is not one of the conversions"
            args = list(p.getattr(cur, "args"))
            if len(args) != 1 or p.getattr(cur, "kwargs"):
                return "chain", "applies a conversion to other arguments than the recipe"
            chain.insert(0, methods[mm])
            cur = args[0]
        if cur is not start and not (type(start) is dict and p.getattr(cur, "value") is start):
            return "chain", f"starts from {cur!r} and not from the given recipe"
        at = src
        for a, b in chain:
            if a != at:
                return "chain", f"applies a conversion from config {a} to a recipe of config {at}"
            at = b
        if at != tgt:
            return "chain", f"ends in config {at} instead of {tgt}"
        d = distance(edges, src, tgt)
        if len(chain) != d:
            return "shortest", f"applies {len(chain)} conversions where {d} are enough"
        return None

    def scenario(n, edges, how, kind, pairs=None):
        def entry():
            w.fresh()
            w.io.orders = False
            cfgs = [w.config({f"k{i}": ((), False), f"l{i}": ((), True)}, cid(i)) for i in range(n)]
            for c in cfgs:
                w.call(register_config, c)
            methods = {}
            for i, (a, b) in enumerate(edges):
                methods[w.call(m.__dict__["register"], f"graph_{i}", cid(a), cid(b))] = (a, b)
            out = []
            for s, t in pairs or itertools.product(range(n), range(n)):
                if t == n:
                    target = "nowhere-impl"
                elif how == "identifier":
                    target = cid(t)
                elif how == "config":
                    target = cfgs[t]
                elif how == "lazy":
                    target = w.call(w.mc.__dict__["resolve"], cid(t))
                elif how == "recipe":
                    target = w.call(w.literal, {f"k{t}": w.tensor("t")}, cfgs[t], "weight")
                else:
                    w.file("T.safetensors", (f"k{t}",))
                    target = w.node("T.safetensors", cfgs[t])
                if kind == "literal":
                    start = w.call(w.literal, {f"k{s}": w.tensor("s")}, cfgs[s], "weight")
                elif kind == "model":
                    w.file("S.safetensors", (f"k{s}",))
                    start = w.node("S.safetensors", cfgs[s])
                elif kind == "merge":
                    x, y = (w.call(w.literal, {f"k{s}": w.tensor("s")}, cfgs[s], "weight") for _ in range(2))
                    start = w.call(m.__dict__["pair"], x, y)
                elif kind == "inferred file":
                    w.file("S.safetensors", (f"k{s}", f"l{s}"))
                    start = p.call(w.model, ("S.safetensors",), {})
                else:
                    start = {f"k{s}": w.tensor("s"), f"l{s}": w.tensor("s2")}
                try:
                    r = p.call(convert, (start, target), {"model_dirs": [APath("/models")]})
                except ControlFlow:
                    raise
                except Exception as e:
                    out.append((s, t, start, None, e))
                else:
                    out.append((s, t, start, r, None))
            res = []
            for s, t, start, r, e in out:
                d = distance(edges, s, t) if t < n else None
                at = f"conversions {list(edges)}: {kind} of config {s} to config {t if t < n else 'unknown'} given as {how}"
                if d is None:
                    res.append(("none", isinstance(e, ValueError), f"{at}: no chain exists, but " + (f"{e!r} is raised" if e is not None else f"{r!r} is returned")))
                elif e is not None:
                    res.append(("none", False, f"{at}: a chain exists, but {e!r} is raised"))
                elif d == 0:
                    res.append(("same", r is start, f"{at}: {r!r} is returned instead of the recipe itself"))
                else:
                    bad = look(r, start, s, t, edges, methods)
                    res.append((bad[0] if bad else "chain", not bad, f"{at}: the result {bad and bad[1]}"))
                    if not bad:
                        res.append(("shortest", True, ""))
            return res

        res = []
        for q in p.explore(entry):
            if q.kind == "raise":
                raise q.value
            if q.kind == "return":
                res += q.value
        return res

    def structural():
        def entry():
            w.fresh()
            w.io.orders = False
            w.call(register_config, w.config({"k0": ((), False)}, cid(0)))
            w.file("S.safetensors", ("unrelated",))
            node = p.call(w.model, ("S.safetensors",), {})
            try:
                return p.call(convert, (node, cid(0)), {"model_dirs": [APath("/models")]}), None
            except ControlFlow:
                raise
            except Exception as e:
                return None, e
        return [("none", isinstance(q.value[1], ValueError), f"a file of unknown architecture to a config: {q.value!r}") for q in p.explore(entry) if q.kind == "return"]

    jobs = []
    three = [tuple(e for k, e in enumerate([(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)]) if b >> k & 1) for b in range(64)]
    jobs += [(3, g, "identifier", "literal") for g in three]
    four = list(graphs(4))
    apart = [(s, t) for s in range(4) for t in range(4) if s != t]
    if tier == "thorough":
        jobs += [(4, h, "identifier", "literal") for g in four for h in (g, g[::-1])]
    else:
        jobs += [(4, g, "identifier", "literal", apart) for g in four if 3 <= len(g) <= 5]
        jobs += [(4, g[::-1], "identifier", "literal", apart) for g in four if 3 <= len(g) <= 4]
    # chains with detours, cycles, parallel conversions, each registered in several orders
    big = [
        (6, ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5))), (6, ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0))), (6, ((0, 1), (1, 2), (2, 3), (0, 4), (4, 3), (3, 5))),
        (5, ((0, 1), (0, 1), (1, 2), (2, 3), (1, 3), (3, 4), (4, 1))), (6, ((0, 1), (1, 0), (1, 2), (2, 1), (0, 3), (3, 0), (3, 4), (4, 5), (5, 2), (2, 5))),
        (7, ((0, 1), (1, 2), (2, 3), (3, 6), (0, 4), (4, 5), (5, 6), (4, 6))), (7, ((6, 5), (5, 4), (4, 3), (3, 2), (2, 1), (1, 0), (6, 3), (4, 1), (0, 6))),
    ]
    for n, g in big:
        jobs += [(n, x, "identifier", "literal") for x in (g, g[::-1], tuple(sorted(g, key=lambda e: e[1])))]
    probe = [(s, t) for s in range(4) for t in range(5)]
    g4 = ((0, 1), (1, 2), (2, 0), (2, 3), (0, 2))
    for how in ("identifier", "config", "lazy", "recipe", "model"):
        for kind in ("literal", "model", "merge", "inferred file", "dict"):
            # a mapping without a config that already fits is handed back as the mapping
            few = kind in ("inferred file", "dict")
            if tier == "thorough" or how == "identifier" or not few and (kind == "literal" or how == "recipe"):
                jobs.append((4, g4, how, kind, probe if tier == "thorough" or not few else [(0, 3), (1, 1), (3, 0), (2, 4)]))
    n = 0
    for res in parallel([lambda: structural()] + [lambda c=jobs[i::14]: [r for j in c for r in scenario(*j)] for i in range(14)]):
        for rule, ok, msg in res:
            n += 1
            rep.obligation(rule, sample=msg.split(": the result")[0][:100] if msg else None)
            if not ok:
                rep.violation(rule, "convert", "sd_mecha/conversion.py", msg)
    rep.unit("sd_mecha.conversion.convert")
    rep.floor("graphs", len(jobs), 160)
    rep.floor("conversions asked for", n, 2500)
