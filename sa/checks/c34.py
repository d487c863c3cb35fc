from ..recipelib import *

LEVEL = "proof"
RULES = {
    "declared": "the keys read to convert a base key are the LoRA keys of that base key and all of them are declared by the LoRA config",
    "covered": "every key declared by a LoRA config is read for exactly one base key",
    "distinct": "no two base keys read the same LoRA key",
    "named": "the LoRA keys of a base key are its name without '.weight', dots as underscores, after the prefix, with the three suffixes",
    "missing": "a base key without LoRA keys is reported with the missing-key error",
    "optional": "every LoRA key is optional and the LoRA config has the components of its base",
}
EXPLANATION = ("Exhaustive abstract interpretation: for every shipped base config and LoRA flavour, the registered conversion is evaluated for every key of the base config on a state dict that "
               "holds exactly the keys of the LoRA config and records what is read; the reads are compared with the declared keys, with each other and with an independent naming rule.")
ASSUMPTIONS = ["the conversion reads the same keys whatever the tensors are"]
SUFFIXES = ("lora_up.weight", "lora_down.weight", "alpha")
PREFIX = {"kohya": "lora", "lycoris": "lycoris"}


class Any_:
    """a tensor of which nothing matters"""

    def size(self, i=None):
        return models.Size((1, 1)) if i is None else 1

    def numel(self):
        return 1

    def op(self, *a, **k):
        return self

    dim = ndimension = lambda self: 2
    ndim = 2
    shape = models.Size((1, 1))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self.op

    __add__ = __radd__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __matmul__ = __rmatmul__ = __sub__ = __getitem__ = __neg__ = op


def check(rep, tier):
    r = Recipes()
    p = r.prog
    c, at = r.call, r.attr
    missing = anchor(p, "sd_mecha.streaming.StateDictKeyError")
    configs = {at(x, "identifier"): x for x in c(at(r.mc, "get_all"))}
    bases = [at(x, "identifier") for x in c(at(r.mc, "get_all_base"))]
    convs = {}
    for m in c(at(r.mm, "get_all_converters")):
        src = c(at(m, "get_input_configs"))
        s = at(at(src, "args")[0], "identifier")
        t = at(c(at(m, "get_return_config"), at(src, "args"), at(src, "kwargs")), "identifier")
        convs.setdefault((s, t), []).append(m)
    jobs = []
    for b in bases:
        for fl, prefix in PREFIX.items():
            name = f"{b}_{fl}_lora"
            if name not in configs:
                raise Broken(f"no LoRA config {name}")
            if (name, b) not in convs:
                rep.violation("covered", f"config {name}", "sd_mecha/extensions/builtin/lycoris.py", f"no conversion from {name} to {b} is registered")
                continue
            jobs.append((b, name, prefix, convs[name, b][-1]))
    extra = [n for n in configs if n not in bases and n not in {j[1] for j in jobs}]
    if extra:
        raise Broken(f"configs registered by code are of an unknown kind: {extra}")
    rep.floor("LoRA configs", len(jobs), 20)

    def job(b, name, prefix, conv):
        res, stats = [], [0, 0]
        W = "sd_mecha/extensions/builtin/lycoris.py"

        def chk(ok, rule, msg):
            res.append((rule, bool(ok), name, W, msg))

        def entry():
            base, lora = configs[b], configs[name]
            declared = c(at(lora, "keys"))
            dset = set(declared)
            reads, held = [], Any_()

            class SD(dict):
                def __missing__(s, k):
                    reads.append(k)
                    raise missing(k)

                def __getitem__(s, k):
                    if k in dset:
                        reads.append(k)
                        return held
                    return s.__missing__(k)

                def get(s, k, d=None):
                    reads.append(k)
                    return held if k in dset else d

                def __contains__(s, k):
                    return k in dset

                def __iter__(s):
                    return iter(list(declared))

                def __len__(s):
                    return len(declared)

                def keys(s):
                    return list(declared)
            SD.model_config = lora
            sd = SD()
            owner = {}
            for k in c(at(base, "keys")):
                reads.clear()
                stats[0] += 1
                try:
                    p.call(p.getattr(conv, "merge_key"), ((sd,), {}, k, None), {})
                    err = None
                except ControlFlow:
                    raise
                except BaseException as e:
                    err = e
                got = set(reads)
                stem = k[:-7] if k.endswith(".weight") else k
                want = {f"{prefix}_{stem.replace('.', '_')}.{s}" for s in SUFFIXES}
                if err is not None:
                    chk(isinstance(err, missing), "missing", f"{k!r}: {err!r} is raised")
                    chk(not want & dset, "declared", f"the LoRA keys of {k!r} are declared, but the conversion reports it missing after reading {sorted(got)}")
                    continue
                chk(got <= dset, "declared", f"{k!r} is computed from {sorted(got - dset)}, which the LoRA config does not declare")
                chk(len(got) == len(SUFFIXES), "declared", f"{k!r} is computed from {sorted(got)}")
                chk(got == want, "named", f"{k!r} is computed from {sorted(got)}")
                for x in got:
                    chk(x not in owner, "distinct", f"{x!r} is read for {owner.get(x)!r} and for {k!r}")
                    owner.setdefault(x, k)
            for x in declared:
                chk(x in owner, "covered", f"the declared key {x!r} is not read for any base key")
            chk(all(at(v, "optional") for v in declared.values()), "optional", "some LoRA key is not optional")
            chk(list(c(at(base, "components"))) == list(c(at(lora, "components"))), "optional", "the components differ from those of the base config")
            stats[1] = len(owner)
        v, e = r.once(entry)
        if e is not None:
            raise e
        return res, stats

    keys = 0
    for res, st in parallel([lambda j=j: job(*j) for j in jobs]):
        keys += st[0]
        for rule, ok, what, loc, msg in res:
            rep.check(ok, rule, f"config {what}", loc, msg)
    rep.unit(*(j[1] for j in jobs))
    rep.floor("base keys", keys, 20000)
