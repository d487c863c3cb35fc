import pathlib
from ..recipelib import *
from ..report import REPO
from ..writer import NAMES

LEVEL = "proof"
RULES = {
    "identifier": "a registered config is registered under the identifier it carries, and a config file under the identifier written inside it",
    "unique": "no key is declared twice, neither within a component, in the text of the file, nor in two components",
    "dtype": "every dtype is a torch dtype that the library can store",
    "shape": "every shape is a list of non-negative integers",
    "alias": "no alias equals a key, or an alias of another key, and no key lists an alias twice",
    "whole": "the keys, metadata and aliases of a config are those of its components, in their order",
}
EXPLANATION = ("Exhaustive evaluation of the shipped config files and of the configs registered by code: every registered config is loaded by abstract interpretation of the registering code, "
               "every key and alias of it is compared with every other; the text of every config file is parsed by a loader of its own that notices repeated keys.")
ASSUMPTIONS = []


def duplicates(text):
    """keys repeated in a mapping of a YAML text, with their lines"""
    import yaml
    out = []

    def walk(n):
        if isinstance(n, yaml.MappingNode):
            seen = {}
            for k, v in n.value:
                if isinstance(k, yaml.ScalarNode):
                    if k.value in seen:
                        out.append((k.value, k.start_mark.line + 1))
                    seen[k.value] = True
                walk(v)
        elif isinstance(n, yaml.SequenceNode):
            for v in n.value:
                walk(v)
    root = yaml.compose(text, Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))
    walk(root)
    top = {k.value: v for k, v in root.value}
    return out, top


def check(rep, tier):
    if duplicates("a:\n  k: 1\n  l: 2\n  k: 3\n")[0] != [("k", 4)]:
        raise Broken("control: a repeated key is not noticed")
    r = Recipes()
    c, at = r.call, r.attr
    configs = list(c(at(r.mc, "get_all")))
    files = sorted((pathlib.Path(REPO) / "sd_mecha").rglob("*.yaml"))
    rep.floor("registered configs", len(configs), 30)
    rep.floor("config files", len(files), 10)
    resolve = at(r.mc, "resolve")

    def text(f):
        rel = str(f.relative_to(REPO))
        rep.unit(rel)
        dup, top = duplicates(f.read_text())
        res = [("unique", not dup, rel, f"{rel}:{dup[0][1] if dup else 1}", f"the key {dup and dup[0][0]!r} is written twice")]
        name = top["identifier"].value if "identifier" in top else None
        try:
            c(resolve, name)
            ok = True
        except ControlFlow:
            raise
        except Exception:
            ok = False
        res.append(("identifier", ok, rel, f"{rel}:1", f"no config is registered under the identifier {name!r} written in the file"))
        return res

    def config(i):
        cfg = configs[i]
        name = at(cfg, "identifier")
        where = "sd_mecha/extensions/builtin/model_configs/" + name + ".yaml" if any(f.stem == name for f in files) else "sd_mecha/extensions/builtin/lycoris.py"
        res = []

        def chk(ok, rule, msg):
            res.append((rule, bool(ok), f"config {name}", where, msg))
        chk(c(resolve, name) is cfg, "identifier", f"{name} resolves to another config")
        comps = c(at(cfg, "components"))
        keys = c(at(cfg, "keys"))
        inner = getattr(cfg, "__dict__", {}).get("underlying_config")
        # the identifier inside a lazily loaded config shows in its representation and in what it is derived into
        for o in (inner,) if inner is not None else ():
            chk(at(o, "identifier") == name, "identifier", f"registered as {name}, but the config inside is named {at(o, 'identifier')}")
        chk(c(at(cfg, "get_architecture_identifier")) + "-" + c(at(cfg, "get_implementation_identifier")) == name, "identifier", "architecture and implementation do not make up the identifier")
        owners, order = {}, []
        for n, comp in comps.items():
            for k in c(at(comp, "keys")):
                chk(k not in owners, "unique", f"the key {k!r} belongs to the components {owners.get(k)!r} and {n!r}")
                owners[k] = n
                order.append(k)
        chk(list(keys) == order, "whole", "keys() is not made of the keys of the components in their order")
        meta, aliases = c(at(cfg, "metadata")), c(at(cfg, "aliases"))
        chk(list(meta) == order and list(aliases) == order, "whole", "metadata() or aliases() do not have the keys of the config")
        names = {}
        bad_shape = bad_dtype = None
        for k, v in keys.items():
            d, s = at(v, "dtype"), at(v, "shape")
            if getattr(d, "name", None) not in NAMES:
                bad_dtype = bad_dtype or f"the dtype of {k!r} is {d!r}, which cannot be stored"
            if not (isinstance(s, (tuple, list)) and all(type(x) is int and x >= 0 for x in s)):
                bad_shape = bad_shape or f"the shape of {k!r} is {s!r}"
            mv = meta[k]
            chk(at(mv, "shape") == s and at(mv, "dtype") is d and list(aliases[k]) == list(at(v, "aliases")), "whole", f"metadata() or aliases() disagree with keys() about {k!r}")
            mine = list(at(v, "aliases"))
            chk(all(type(x) is str for x in mine) and len(set(mine)) == len(mine), "alias", f"the aliases of {k!r} are {mine}")
            for x in mine:
                chk(x not in keys, "alias", f"the alias {x!r} of {k!r} is a key")
                chk(x not in names, "alias", f"{x!r} is an alias of {k!r} and of {names.get(x)!r}")
                names[x] = k
        chk(bad_dtype is None, "dtype", bad_dtype)
        chk(bad_shape is None, "shape", bad_shape)
        chk(keys, "whole", "the config has no keys")
        return res, len(keys), len(names)

    nkeys = nalias = 0
    groups = {}
    for i, cfg in enumerate(configs):
        # configs derived from one another are loaded in one process
        groups.setdefault(str(at(cfg, "identifier")).split("_lycoris_")[0].split("_kohya_lora")[0], []).append(i)
    for f in files:
        for rule, ok, what, loc, msg in text(f):
            rep.check(ok, rule, what, loc, msg)
    for part in parallel([lambda g=g: [config(i) for i in g] for g in groups.values()]):
        for res, nk, na in part:
            nkeys, nalias = nkeys + nk, nalias + na
            for rule, ok, what, loc, msg in res:
                rep.check(ok, rule, what, loc, msg)
    rep.unit(*(f"config {at(x, 'identifier')}" for x in configs))
    rep.floor("keys", nkeys, 40000)
    rep.floor("aliases", nalias, 800)
