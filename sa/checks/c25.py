import itertools
from ..recipelib import *
from ..engine import ext
from ..writer import NAMES

LEVEL = "other"
RULES = {
    "roundtrip": "from_yaml(to_yaml(config)) has the identifier, components, keys, shapes, dtypes, aliases and optional flags of config, in the same order",
    "error": "a config that can be written can be read back",
    "state": "to_yaml leaves the config and the YAML library's registered representers as they were",
}
EXPLANATION = ("Abstract interpretation of to_yaml and from_yaml over every shipped config (from file and derived) and generated configs: every dtype, kinds of shape and alias containers, "
               "optional flags, names with characters that mean something in YAML or look like other YAML types, empty components. Only the YAML library itself is executed, on the structure that to_yaml "
               "hands to it; the result is compared attribute by attribute.")
ASSUMPTIONS = ["the YAML library writes and reads plain strings, numbers, booleans, lists and dictionaries faithfully"]

TEXTS = ["a", "a.b.c", "1", "1.5", "1e3", "0x1f", "1_000", "true", "no", "yes", "on", "off", "null", "~", "y", "N", "", " ", " a", "a ", "a: b", "a #b", "- a", "? a", "[a]", "{a}", "{a: b}", "a,b", "&a",
         "*a", "!a", "!!str a", "|", ">", "%a", "@a", "`a", "'a'", '"a"', "a'b", 'a"b', "a\\b", "a\nb", "a\n", "\ta", "a\tb", "\u00e9", "\u2028", "\u0085", "\U0001f600", "=", "<<", "---", "...", "2001-01-01", "12:30:45",
         ".inf", ".nan", "-", "?", ":", "a:", ":a", "identifier", "components", "keys", "shape", "dtype", "aliases", "optional", "_keys", "x" * 300, "a b " * 60, "0o17", "017", "+1", "1.", ".5"]


class Yaml:
    """The YAML library's dumper, with representers of the analysed program."""

    def __init__(self, p):
        import yaml
        self.p, self.yaml = p, yaml
        self.classes = {}
        for n in ("SafeDumper", "CSafeDumper", "Dumper", "CDumper"):
            self.classes[n] = p.ext_values[f"yaml.{n}"] = self.dumper(getattr(yaml, n.lstrip("C")))
        for n, d in (("safe_dump", "SafeDumper"), ("dump", "Dumper")):
            p.term_models[f"yaml.{n}"] = lambda p, a, k, d=d: self.dump(d, a, k)
        p.term_models["yaml.add_representer"] = lambda p, a, k: (k.get("Dumper") or self.classes["Dumper"]).add_representer(*a[:2])

    def dumper(self, base):
        return type(base.__name__, (base,), {"yaml_representers": dict(base.yaml_representers), "yaml_multi_representers": dict(base.yaml_multi_representers)})

    def dump(self, d, a, k):
        k = dict(k)
        cls = k.pop("Dumper", None) or self.classes[d]
        stream = k.pop("stream", a[1] if len(a) > 1 else None)
        if stream is not None:
            raise EngineError("dumping into a stream")
        return self.yaml.dump(a[0], Dumper=cls, **k)


def check(rep, tier):
    r = Recipes()
    p = r.prog
    y = Yaml(p)
    c, at = r.call, r.attr
    to_yaml, from_yaml = (anchor(p, f"sd_mecha.extensions.model_configs.{n}") for n in ("to_yaml", "from_yaml"))
    Impl, Comp, Key = (anchor(p, f"sd_mecha.extensions.model_configs.{n}") for n in ("ModelConfigImpl", "ModelComponent", "KeyMetadata"))
    Size, DT = models.Size, models.DTYPES

    def view(cfg):
        """everything a config says, by its public interface"""
        return at(cfg, "identifier"), [(n, [(k, None if at(v, "shape") is None else list(at(v, "shape")), getattr(at(v, "dtype"), "name", at(v, "dtype")), list(at(v, "aliases")), at(v, "optional"))
                                            for k, v in c(at(comp, "keys")).items()]) for n, comp in c(at(cfg, "components")).items()]

    def reps():
        return {n: {k: getattr(k, "__name__", k) and v for k, v in cls.yaml_representers.items()} for n, cls in y.classes.items()}

    def first(a, b):
        if a[0] != b[0]:
            return f"the identifier {a[0]!r} becomes {b[0]!r}"
        if [n for n, _ in a[1]] != [n for n, _ in b[1]]:
            return f"the components {[n for n, _ in a[1]]!r} become {[n for n, _ in b[1]]!r}"
        for (n, x), (_, z) in zip(a[1], b[1]):
            if [k[0] for k in x] != [k[0] for k in z]:
                k = next(((u[0], v[0]) for u, v in zip(x, z) if u[0] != v[0]), (len(x), len(z)))
                return f"the keys of component {n!r} change: {k[0]!r} becomes {k[1]!r}"
            for u, v in zip(x, z):
                for what, g, h in zip(("shape", "dtype", "aliases", "optional flag"), u[1:], v[1:]):
                    if g != h or type(g) is not type(h):
                        return f"the {what} of {u[0]!r} changes from {g!r} to {h!r}"
        return None

    def trip(what, make):
        def entry():
            cfg = make()
            a = view(cfg)
            before = reps()
            try:
                b = c(from_yaml, c(to_yaml, cfg))
            except ControlFlow:
                raise
            except Exception as e:
                return [("error", False, what, f"{what}: {type(e).__name__}: {e}")]
            d = first(a, view(b))
            return [("error", True, what, what), ("roundtrip", d is None, what, f"{what}: {d}"),
                    ("state", reps() == before, what, f"{what}: to_yaml changes the representers of the YAML library"),
                    ("state", first(a, view(cfg)) is None, what, f"{what}: to_yaml changes the config: {first(a, view(cfg))}")]
        v, e = r.once(entry)
        if e is not None:
            raise e
        return v

    def build(components, identifier="arch-impl"):
        return c(Impl, identifier, {n: c(Comp, {k: c(Key, *a, **kw) for k, (a, kw) in ks.items()}) for n, ks in components.items()})

    shapes = [[], [1], [0], [2, 3], [320, 4, 3, 3], Size([]), Size([5]), Size([7, 7])]
    gens = {}
    for d in NAMES:
        for as_str in (True, False):
            gens[f"dtype {d} given as {'name' if as_str else 'torch dtype'}"] = lambda d=d, s=as_str: build({"m": {"k": (([2], d if s else DT[d]), {})}})
    for s in shapes:
        gens[f"shape {type(s).__name__} {list(s)}"] = lambda s=s: build({"m": {"k": ((s, "float32"), {})}})
    for al, opt in itertools.product(([], (), ["a"], ("a", "b"), ["b", "a"]), (None, False, True)):
        kw = {"aliases": al}
        if opt is not None:
            kw["optional"] = opt
        gens[f"aliases {al!r}, optional {opt}"] = lambda kw=kw: build({"m": {"k": (([2], "float16"), dict(kw)), "l": (([], "int64"), {}), "n": (([1], "bool"), {"optional": True})}})
    for t in TEXTS:
        gens[f"key {t[:20]!r}"] = lambda t=t: build({"m": {"z": (([2], "float32"), {}), t: (([2], "float32"), {})}})
        gens[f"alias {t[:20]!r}"] = lambda t=t: build({"m": {"k": (([2], "float32"), {"aliases": ["z", t, "b"]})}})
        gens[f"component {t[:20]!r}"] = lambda t=t: build({"z": {"k": (([2], "float32"), {})}, t: {"l": (([2], "float32"), {})}})
        gens[f"only {t[:20]!r}"] = lambda t=t: build({t: {t: (([2], "float32"), {"aliases": [t + "2"], "optional": True})}})
    for i in ("a-b", "1-2", "1.0-2.5", "a_b-c+d", "_-_", "+-.", "0x1-1", "a.b-c", "1e3-4", "no-yes", "1_0-2"):
        gens[f"identifier {i!r}"] = lambda i=i: build({"m": {"k": (([2], "float32"), {})}}, i)
    gens["no component"] = lambda: build({})
    gens["empty component"] = lambda: build({"m": {}})
    gens["empty components"] = lambda: build({"m": {}, "n": {"k": (([2], "float32"), {})}, "o": {}})
    gens["order of components"] = lambda: build({n: {n + k: (([2], "float32"), {}) for k in "ba"} for n in "zay"})
    gens["components named like fields"] = lambda: build({n: {"identifier": (([2], "float32"), {}), n: (([1], "float32"), {})} for n in ("keys", "shape", "dtype", "components")})
    # mappings as the YAML library hands them over
    gens["built from plain mappings"] = lambda: c(Impl, identifier="arch-impl", components={"m": {"k": {"shape": [2], "dtype": "float32"}, "l": {"shape": [], "dtype": "int32", "aliases": ["x"], "optional": True}}})
    gens["read back twice"] = lambda: c(from_yaml, c(to_yaml, build({"m": {"k": (([2], "float32"), {"aliases": ["x"]}), "l": (([], "int32"), {"optional": True})}})))
    configs = list(c(at(r.mc, "get_all")))
    names = [at(x, "identifier") for x in configs]
    groups, n = {}, 0
    for cfg, name in zip(configs, names):
        if tier == "quick" and "_lora" in name and not (name.startswith("sdxl-supermerger") or name.startswith("sd1-ldm_kohya")):
            continue
        groups.setdefault(name.split("_lycoris_")[0].split("_kohya_lora")[0], []).append((name, cfg))
    rep.floor("shipped configs", sum(map(len, groups.values())), 13)
    items = list(gens.items())
    tasks = [lambda g=g: [t for name, cfg in g for t in trip(f"config {name}", lambda: cfg)] for g in groups.values()]
    tasks += [lambda s=s: [t for what, f in s for t in trip(what, f)] for s in (items[i::4] for i in range(4))]
    for part in parallel(tasks):
        for rule, ok, what, msg in part:
            n += 1
            rep.check(ok, rule, what, "sd_mecha/extensions/model_configs.py", msg)
    rep.unit("sd_mecha.extensions.model_configs.to_yaml", "sd_mecha.extensions.model_configs.from_yaml")
    rep.floor("generated configs", len(items), 300)
