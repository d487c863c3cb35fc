import ast
import types
from ..recipelib import *
from ..engine import Fn, CachedFn, fn_info

LEVEL = "other"
RULES = {
    "captured": "a function reachable from a registry does not share a variable that was rebound with another function created by the same code",
    "converter": "a registered LoRA conversion reads keys of the config it is registered for, and returns the config it is registered for",
    "delegate": "each attribute of a lazily loaded config is that attribute of the config it stands for",
    "factory": "methods, conversions, formats and configs created by a factory or in a loop keep the values of their own creation, in whatever order they are completed and used",
}
EXPLANATION = ("Closure-capture analysis: abstract interpretation of the import of the package records every function creation with the values of its captured variables; every function reachable "
               "from the registries (methods, conversions, configs and their classes, formats) is then compared with the variables' final values, per defining code and shared scope. The public "
               "decorators and base classes are then interpreted in loops and factories, completed in several orders.")
ASSUMPTIONS = ["functions are registered while the package is imported, or through the public decorators, base classes and register functions"]

SOURCE = '''
import itertools
from sd_mecha import *
from sd_mecha.extensions import merge_methods, model_configs, model_formats
from sd_mecha.extensions.merge_methods import StateDict
from torch import Tensor

def make_config(identifier, key):
    return model_configs.ModelConfigImpl(identifier, {"part_" + key: {key: model_configs.KeyMetadata([2], "float32", aliases=["alias_" + key])}})

class Lazy(model_configs.LazyModelConfigBase):
    def __init__(self, name, key):
        super().__init__()
        self.name, self.key = name, key

    @property
    def identifier(self):
        return self.name

    def create_config(self):
        return make_config(self.name, self.key)

class Lazy2(model_configs.LazyModelConfigBase):
    def __init__(self, name, key):
        super().__init__()
        self.name, self.key = name, key

    @property
    def identifier(self):
        return self.name

    def create_config(self):
        return make_config(self.name, self.key)

    def components(self):
        return {"own": 1}

def lazies(n):
    out = []
    for i in range(n):
        class Local(model_configs.LazyModelConfigBase):
            index = i
            @property
            def identifier(self):
                return f"local{self.index}-impl"
            def create_config(self):
                return make_config(self.identifier, f"local{self.index}")
        out.append(Local())
    return out

def body(n):
    def f(a: Parameter(Tensor), **kwargs) -> Return(Tensor):
        return ("result", n)
    f.__name__ = f"own_name_{n}"
    return f

def converter(n):
    src, tgt = f"src{n}-impl", f"tgt{n}-impl"
    model_configs.register(make_config(src, f"s{n}"))
    model_configs.register(make_config(tgt, f"t{n}"))
    @merge_method(identifier=f"conv_{n}", is_conversion=True)
    def conv(a: Parameter(StateDict[Tensor], "weight", src), **kwargs) -> Return(Tensor, "weight", tgt):
        return a[f"s{n}"]
    return conv

def format_class(n):
    class Fmt(model_formats.ModelFormat):
        number = n
        def matches(self, path):
            return False
        def get_read_dict(self, path, buffer_size):
            return {}
        def get_write_dict(self, path, model_config, mecha_recipe, buffer_size):
            return {}
    Fmt.__name__ = f"Own{n}"
    return Fmt
'''


def loads(node):
    """names looked up outside of the function, transitively"""
    own = fn_info(node).locals
    out = set()

    def walk(n, bound):
        t = type(n)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda):
            out.update(loads(n) - bound - own)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x] + getattr(n, "decorator_list", []):
                walk(d, bound)
            return
        if t in (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp):
            bound = bound | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        if t is ast.Name and isinstance(n.ctx, ast.Load) and n.id not in bound and n.id not in own:
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c, bound)
    for s in node.body if isinstance(node.body, list) else [node.body]:
        walk(s, frozenset())
    return out


def owner(p, name, scope):
    """the mapping that holds the variable"""
    s, top = scope, scope
    while s is not None and s.parent is not None:
        if s.cls is not None and s is not top:
            s = s.parent
            continue
        if s.info is not None and name in s.info.globals:
            break
        if name in s.vars or s.info is not None and name in s.info.locals:
            return s.vars
        s = s.parent
    g = scope.glob.__dict__
    return g if name in g else None


class Captures:
    def __init__(self, p):
        self.p, self.all = p, {}
        p.fn_watch.append(self.made)

    def made(self, fn):
        snap = {}
        for n in loads(fn.node):
            n = self.p.mangle(n, fn.scope) if hasattr(self.p, "mangle") else n
            o = owner(self.p, n, fn.scope)
            if o is not None and n in o:
                snap[n] = (o, o[n])
        self.all.setdefault(id(fn.node), []).append((fn, snap))

    def changed(self, fn):
        """captured variables shared with another function of the same code, whose value is another one now"""
        group = self.all.get(id(fn.node), [])
        for f, snap in group:
            if f is fn:
                for n, (o, v) in snap.items():
                    now = o.get(n)
                    if now is v:
                        continue
                    try:
                        same = type(now) is type(v) and not is_term(now) and now == v
                    except ControlFlow:
                        raise
                    except Exception:
                        same = False
                    if not same and any(g is not fn and n in s and s[n][0] is o for g, s in group):
                        yield n, v, now


def reachable(roots):
    """every function of the program reachable from the values"""
    seen, todo, found = set(), list(roots), []
    while todo:
        v, how = todo.pop()
        if id(v) in seen or isinstance(v, (str, bytes, int, float, type(None), types.ModuleType)) or is_term(v):
            continue
        seen.add(id(v))
        if isinstance(v, Fn):
            found.append((v, how))
            todo += [(x, how) for x in list(v.defaults) + list(v.kwdefaults.values())]
            s = v.scope
            while s is not None and s.parent is not None:
                if s.cls is None:
                    names = loads(v.node)
                    todo += [(x, how) for n, x in s.vars.items() if n in names]
                s = s.parent
        elif isinstance(v, CachedFn):
            todo.append((v.fn, how))
        elif isinstance(v, types.MethodType):
            todo += [(v.__func__, how), (v.__self__, how)]
        elif isinstance(v, property):
            todo += [(x, how) for x in (v.fget, v.fset, v.fdel)]
        elif isinstance(v, (staticmethod, classmethod)):
            todo.append((v.__func__, how))
        elif isinstance(v, dict):
            todo += [(x, how) for x in v.values()]
        elif isinstance(v, (list, tuple, set, frozenset)):
            todo += [(x, how) for x in v]
        elif isinstance(v, type):
            if v.__module__.startswith("sd_mecha") or v.__module__ == "recipes":
                todo += [(x, f"{how}, class {v.__name__}") for x in list(vars(v).values()) + list(v.__bases__)]
        else:
            if hasattr(v, "func") and hasattr(v, "args"):
                todo += [(v.func, how), (v.args, how), (getattr(v, "keywords", None), how)]
            todo.append((type(v), how))
            todo += [(x, how) for x in getattr(v, "__dict__", {}).values()]
    return found


CONTROL = '''
table = []
for i in range(3):
    def late():
        return i
    def early(i=i):
        return i
    def outer(x):
        return lambda: x
    table += [late, early, outer(i), lambda: [i for i in range(2)]]
def factory(n):
    out = []
    for k in range(n):
        out.append(lambda: k)
    return out
table += factory(2)
'''


def check(rep, tier):
    caps = []
    from ..report import REPO
    from .. import recipelib
    program0 = recipelib.program
    recipelib.program = lambda *b: program0(lambda p: caps.append(Captures(p)), *b)
    try:
        r = Recipes()
    finally:
        recipelib.program = program0
    cap = caps[0]
    p, c, at = r.prog, r.call, r.attr
    m = p.source("control17", CONTROL)
    bad = [f.__name__ for f, _ in reachable([(x, "") for x in m.__dict__["table"]]) for _ in cap.changed(f)]
    if sorted(bad) != ["<lambda>", "late", "late"]:
        raise Broken(f"control: closures with shared variables were told apart as {bad}")
    rep.obligation("captured", 12, sample="control module: late-bound closures told apart from bound ones")

    # load everything lazily made as well
    for cfg in c(at(r.mc, "get_all")):
        try:
            list(c(at(cfg, "keys")))
        except ControlFlow:
            raise
        except Exception as e:
            rep.violation("delegate", "keys of a registered config", "sd_mecha/extensions/model_configs.py", f"reading the keys of config {at(cfg, 'identifier')} raises {e!r}")
            break
    roots = [(x, f"merge method {at(x, 'identifier')!r}") for x in c(at(r.mm, "get_all"))]
    roots += [(x, f"conversion {at(x, 'identifier')!r}") for x in c(at(r.mm, "get_all_converters"))]
    roots += [(x, f"config {at(x, 'identifier')!r}") for x in c(at(r.mc, "get_all"))]
    mf = p.load("sd_mecha.extensions.model_formats")
    roots += [(x, f"format {at(x, 'identifier')!r}") for x in c(at(mf, "get_all"))]
    rep.floor("registered objects", len(roots), 110)
    found = reachable(roots)
    ncap = 0
    for fn, how in found:
        rep.unit(f"{fn.__module__}.{fn.__qualname__}")
        for f, snap in cap.all.get(id(fn.node), ()):
            if f is fn:
                ncap += len(snap)
        for n, then, now in cap.changed(fn):
            rep.violation("captured", f"{fn.__module__}.{fn.__qualname__}: {n}", f"{fn.module.__file__}:{fn.node.lineno}".replace(REPO + "/", ""),
                          f"reached from {how}: the variable {n} was {then!r} when the function was created, but is {now!r} now, and is shared with other functions of the same code")
    rep.obligation("captured", ncap)
    rep.floor("functions reached", len(found), 120)
    rep.floor("captured variables", ncap, 100)

    # ---- each LoRA conversion belongs to its config
    missing = anchor(p, "sd_mecha.streaming.StateDictKeyError")
    convs = [x for x in c(at(r.mm, "get_all_converters")) if "_lora" in at(at(c(at(x, "get_input_configs")), "args")[0], "identifier")]
    rep.floor("LoRA conversions", len(convs), 20)

    def conversions():
        res = []
        for x in convs:
            ins = c(at(x, "get_input_configs"))
            src = at(ins, "args")[0]
            tgt = c(at(x, "get_return_config"), at(ins, "args"), at(ins, "kwargs"))
            name = at(x, "identifier")
            declared = c(at(src, "keys"))
            res.append((at(src, "identifier") in name and at(src, "identifier").startswith(at(tgt, "identifier") + "_"), name, f"{name} converts {at(src, 'identifier')} to {at(tgt, 'identifier')}"))
            reads = []

            class SD(dict):
                def __missing__(s, k):
                    reads.append(k)
                    raise missing(k)
            for k in [k for k in c(at(tgt, "keys")) if k.endswith("weight")][:3]:
                reads.clear()
                try:
                    c(at(x, "merge_key"), (SD(),), {}, k, None)
                except ControlFlow:
                    raise
                except BaseException:
                    pass
                res.append((bool(reads) and reads[0] in declared, name, f"{name} reads {reads[:1]} for {k!r}, which is not a key of {at(src, 'identifier')}"))
        return res
    v, e = r.once(conversions)
    if e is not None:
        rep.violation("converter", "LoRA conversions", "sd_mecha/extensions/builtin/lycoris.py", f"looking at the registered LoRA conversions raises {e!r}")
        v = []
    for ok, name, msg in v:
        rep.check(ok, "converter", name, "sd_mecha/extensions/builtin/lycoris.py", msg)

    # ---- factories and loops through the public interface
    f = p.source("recipes17", SOURCE)
    g = f.__dict__
    MC = "sd_mecha/extensions/model_configs.py"

    def factories():
        res = []

        def chk(ok, rule, what, loc, msg):
            res.append((rule, bool(ok), what, loc, msg))
        # lazily loaded configs
        for cls in ("Lazy", "Lazy2"):
            objs = [c(g[cls], f"cfg{i}-{cls.lower()}", f"key{i}") for i in range(3)]
            for order in ((0, 1, 2), (2, 0, 1)):
                for i in order:
                    look(chk, objs[i], f"cfg{i}-{cls.lower()}", f"key{i}", cls == "Lazy2")
        objs = list(c(g["lazies"], 3))
        for i in (1, 0, 2):
            look(chk, objs[i], f"local{i}-impl", f"local{i}", False)
        # methods named by decorators that are applied later, in another order
        MM = "sd_mecha/extensions/merge_methods.py"
        dec = anchor(p, "sd_mecha.merge_method")
        decs = [c(dec, identifier=f"factory_{i}") for i in range(3)] + [c(dec) for i in range(3)]
        made = {}
        for i in (4, 1, 0, 3, 2, 5):
            made[i] = c(decs[i], c(g["body"], i))
        for i, x in made.items():
            want = f"factory_{i}" if i < 3 else f"own_name_{i}"
            chk(at(x, "identifier") == want, "factory", "merge_method", MM, f"a method decorated as {want!r} is named {at(x, 'identifier')!r}")
            chk(c(at(r.mm, "resolve"), want) is x, "factory", "merge_method", MM, f"{want!r} resolves to another method")
            out = c(at(x, "merge_key"), (1,), {}, "k", None)
            chk(out == ("result", i), "factory", "merge_method", MM, f"the method {want!r} computes {out!r} instead of its own result")
        cs = [c(g["converter"], i) for i in range(3)]
        convert = anchor(p, "sd_mecha.convert")
        for i in (2, 0, 1):
            x = cs[i]
            ins = c(at(x, "get_input_configs"))
            src, tgt = at(ins, "args")[0], c(at(x, "get_return_config"), at(ins, "args"), at(ins, "kwargs"))
            chk((at(src, "identifier"), at(tgt, "identifier")) == (f"src{i}-impl", f"tgt{i}-impl"), "factory", "merge_method", MM, f"conversion {i} converts {at(src, 'identifier')} to {at(tgt, 'identifier')}")
            out = c(at(x, "merge_key"), ({f"s{i}": 10 + i},), {}, f"t{i}", None)
            chk(out == 10 + i, "factory", "merge_method", MM, f"conversion {i} computes {out!r}")
            lit = c(r.literal, {f"s{i}": 1.0}, f"src{i}-impl", "weight")
            node = c(convert, lit, f"tgt{i}-impl")
            chk(at(node, "merge_method") is x, "factory", "convert", "sd_mecha/conversion.py", f"convert to tgt{i}-impl applies {at(at(node, 'merge_method'), 'identifier')}")
        MF = "sd_mecha/extensions/model_formats.py"
        reg = at(mf, "register_model_format")
        decs = [c(reg, identifier=f"format_{i}") for i in range(3)] + [c(reg) for i in range(3)]
        for i in (3, 1, 5, 0, 4, 2):
            c(decs[i], c(g["format_class"], i))
        for i in range(6):
            want = f"format_{i}" if i < 3 else f"Own{i}"
            x = c(at(mf, "resolve"), want)
            chk(at(x, "number") == i and at(x, "identifier") == want, "factory", "register_model_format", MF, f"{want!r} resolves to format {at(x, 'number')} named {at(x, 'identifier')!r}")
        return res

    def look(chk, o, name, key, own):
        got = {
            "identifier": at(o, "identifier"), "architecture": c(at(o, "get_architecture_identifier")), "implementation": c(at(o, "get_implementation_identifier")),
            "keys": list(c(at(o, "keys"))), "metadata": list(c(at(o, "metadata"))), "aliases": {k: list(v) for k, v in c(at(o, "aliases")).items()}, "components": list(c(at(o, "components"))),
        }
        want = {"identifier": name, "architecture": name.split("-")[0], "implementation": name.split("-")[1], "keys": [key], "metadata": [key], "aliases": {key: ["alias_" + key]},
                "components": ["own"] if own else ["part_" + key]}
        for k in want:
            chk(got[k] == want[k], "delegate", "LazyModelConfigBase", MC, f"{k} of the lazily loaded config {name} is {got[k]!r} instead of {want[k]!r}")

    v, e = r.once(factories)
    if e is not None:
        rep.violation("factory", "public decorators and base classes", MC, f"using what was created by factories raises {e!r}")
        v = []
    for rule, ok, what, loc, msg in v:
        rep.check(ok, rule, what, loc, msg)
    # ---- the shipped lazily loaded configs
    def shipped():
        res = []
        for cfg in c(at(r.mc, "get_all")):
            inner = getattr(cfg, "__dict__", {}).get("underlying_config")
            if inner is None:
                continue
            for a in ("keys", "metadata", "aliases", "components", "get_architecture_identifier", "get_implementation_identifier"):
                x, z = c(at(cfg, a)), c(at(inner, a))
                res.append((x is z or x == z or list(x) == list(z), at(cfg, "identifier"), f"{a} of config {at(cfg, 'identifier')} is not that of the loaded config"))
        return res
    v, e = r.once(shipped)
    if e is not None:
        rep.violation("delegate", "shipped configs", MC, f"reading an attribute of a shipped config raises {e!r}")
        v = []
    for ok, what, msg in v:
        rep.check(ok, "delegate", f"config {what}", MC, msg)
