import math
import re
from ..methodlib import *
from ..tensorlib import add, mul, num, same, T, div

LEVEL = "proof"
RULES = {
    "exists": "a key of the target config that the source can provide is computed from keys of the source config only",
    "shape": "the result has the shape that the target config declares",
    "source": "the result is the tensor (or the concatenation, transposition or reshaping of tensors) that the naming of the two formats gives",
    "distinct": "no two target keys come from the same source tensor, unless the source has one value for a whole block",
    "used": "every source tensor is used for some target key",
    "missing": "a target key outside the scope of the source is reported with the missing-key error",
    "kept": "a conversion writes to none of its inputs",
    "lora": "a LoRA delta is alpha / rank times the product of its up and down weights, in the shape of the base key",
}
EXPLANATION = ("Exhaustive abstract interpretation: every registered conversion is evaluated for every key of its target config on a state dict that holds a symbolic tensor of the declared shape under every key of its source config. "
               "The symbolic result is compared with the one that an independent naming table of the two formats gives, and with the shape the target config declares. LoRA conversions are evaluated for layers of each kind and size relation.")
ASSUMPTIONS = ["the values of tensors do not decide where a conversion reads"]
WHERE = "sd_mecha/extensions/builtin/model_configs"


# ---- naming of the formats: target key -> (how, source keys), or None when the source does not have it
def resnet(rest):
    for a, b in (("in_layers.0.", "norm1."), ("in_layers.2.", "conv1."), ("emb_layers.1.", "time_emb_proj."), ("out_layers.0.", "norm2."), ("out_layers.3.", "conv2."), ("skip_connection.", "conv_shortcut.")):
        if rest.startswith(a):
            return b + rest[len(a):]
    raise KeyError(rest)


def unet(key):
    """original (ldm, sgm) name of a unet layer -> diffusers name"""
    for a, b in (("time_embed.0.", "time_embedding.linear_1."), ("time_embed.2.", "time_embedding.linear_2."), ("label_emb.0.0.", "add_embedding.linear_1."), ("label_emb.0.2.", "add_embedding.linear_2."), ("input_blocks.0.0.", "conv_in."),
                 ("out.0.", "conv_norm_out."), ("out.2.", "conv_out.")):
        if key.startswith(a):
            return b + key[len(a):]
    g = re.fullmatch(r"input_blocks\.(\d+)\.(\d)\.(.*)", key)
    if g:
        i, j, sub, rest = (int(g[1]) - 1) // 3, (int(g[1]) - 1) % 3, int(g[2]), g[3]
        if j == 2:
            assert rest.startswith("op."), key
            return f"down_blocks.{i}.downsamplers.0.conv.{rest[3:]}"
        return f"down_blocks.{i}.resnets.{j}.{resnet(rest)}" if sub == 0 else f"down_blocks.{i}.attentions.{j}.{rest}"
    g = re.fullmatch(r"middle_block\.(\d)\.(.*)", key)
    if g:
        return f"mid_block.attentions.0.{g[2]}" if g[1] == "1" else f"mid_block.resnets.{int(g[1]) // 2}.{resnet(g[2])}"
    g = re.fullmatch(r"output_blocks\.(\d+)\.(\d)\.(.*)", key)
    if g:
        i, j, sub, rest = int(g[1]) // 3, int(g[1]) % 3, int(g[2]), g[3]
        if sub == 0:
            return f"up_blocks.{i}.resnets.{j}.{resnet(rest)}"
        return f"up_blocks.{i}.upsamplers.0.{rest}" if re.match(r"conv\.", rest) else f"up_blocks.{i}.attentions.{j}.{rest}"
    raise KeyError(key)


def vae(key):
    """original name of a vae layer -> (how, diffusers name)"""
    def block(rest):
        return rest.replace("nin_shortcut.", "conv_shortcut.")
    how = "same"
    g = re.fullmatch(r"(encoder|decoder)\.(.*)", key)
    if not g:
        return how, key
    side, rest = g[1], g[2]
    if m := re.fullmatch(r"down\.(\d)\.block\.(\d)\.(.*)", rest):
        rest = f"down_blocks.{m[1]}.resnets.{m[2]}.{block(m[3])}"
    elif m := re.fullmatch(r"down\.(\d)\.downsample\.(.*)", rest):
        rest = f"down_blocks.{m[1]}.downsamplers.0.{m[2]}"
    elif m := re.fullmatch(r"up\.(\d)\.block\.(\d)\.(.*)", rest):
        rest = f"up_blocks.{3 - int(m[1])}.resnets.{m[2]}.{block(m[3])}"
    elif m := re.fullmatch(r"up\.(\d)\.upsample\.(.*)", rest):
        rest = f"up_blocks.{3 - int(m[1])}.upsamplers.0.{m[2]}"
    elif m := re.fullmatch(r"mid\.block_(\d)\.(.*)", rest):
        rest = f"mid_block.resnets.{int(m[1]) - 1}.{block(m[2])}"
    elif m := re.fullmatch(r"mid\.attn_1\.(\w+)\.(.*)", rest):
        part = {"norm": "group_norm", "q": "to_q", "k": "to_k", "v": "to_v", "proj_out": "to_out.0"}[m[1]]
        rest = f"mid_block.attentions.0.{part}.{m[2]}"
        how = "same" if m[1] == "norm" else "conv"
    elif m := re.fullmatch(r"norm_out\.(.*)", rest):
        rest = f"conv_norm_out.{m[1]}"
    return how, f"{side}.{rest}"


def clip_g(key):
    """open_clip name -> (how, huggingface names)"""
    if key == "text_projection":
        return "transposed", ["te2.text_projection.weight"]
    p = "te2.text_model."
    for a, b in (("token_embedding.weight", "embeddings.token_embedding.weight"), ("positional_embedding", "embeddings.position_embedding.weight"), ("logit_scale", "logit_scale")):
        if key == a:
            return "same", [p + b]
    if g := re.fullmatch(r"ln_final\.(.*)", key):
        return "same", [f"{p}final_layer_norm.{g[1]}"]
    g = re.fullmatch(r"transformer\.resblocks\.(\d+)\.(.*)", key)
    p, rest = f"{p}encoder.layers.{g[1]}.", g[2]
    if m := re.fullmatch(r"attn\.in_proj_(weight|bias)", rest):
        return "cat", [f"{p}self_attn.{x}_proj.{m[1]}" for x in "qkv"]
    for a, b in (("attn.out_proj.", "self_attn.out_proj."), ("mlp.c_fc.", "mlp.fc1."), ("mlp.c_proj.", "mlp.fc2."), ("ln_1.", "layer_norm1."), ("ln_2.", "layer_norm2.")):
        if rest.startswith(a):
            return "same", [p + b + rest[len(a):]]
    raise KeyError(key)


def after(prefix, key):
    return key[len(prefix):] if key.startswith(prefix) else None


def kohya_sdxl(key):
    if (r := after("model.diffusion_model.", key)) is not None:
        return "same", ["unet." + r]
    if (r := after("conditioner.embedders.0.transformer.", key)) is not None:
        return "same", ["te1." + r]
    if (r := after("conditioner.embedders.1.model.", key)) is not None:
        return clip_g(r)
    return "same", [key]


def kohya_sd1(key):
    if (r := after("model.diffusion_model.", key)) is not None:
        return "same", ["unet." + unet(r)]
    if (r := after("cond_stage_model.transformer.", key)) is not None:
        return "same", ["te." + r]
    if (r := after("first_stage_model.", key)) is not None:
        how, k = vae(r)
        return how, ["vae." + k]
    return "same", [key]


def diffusers_sdxl(key):
    r = after("model.diffusion_model.", key)
    return None if r is None else ("same", [unet(r)])


def blocks(last, vae_block):
    def f(key):
        r = after("model.diffusion_model.", key)
        if r is None:
            return "same", [vae_block if key.startswith("first_stage_model.") else "BASE"]
        if g := re.match(r"input_blocks\.(\d+)\.", r):
            return "same", [f"IN{int(g[1]):02}"]
        if r.startswith("middle_block."):
            return "same", ["M00"]
        if g := re.match(r"output_blocks\.(\d+)\.", r):
            return "same", [f"OUT{int(g[1]):02}"]
        return "same", [last if r.startswith("out.") else "BASE" if r.startswith(("time_embed.", "label_emb.")) else last]
    return f


NAMES = {
    ("sdxl-kohya", "sdxl-sgm"): kohya_sdxl,
    ("sd1-kohya", "sd1-ldm"): kohya_sd1,
    ("sdxl-diffusers_unet_only", "sdxl-sgm"): diffusers_sdxl,
    ("flux-flux", "flux-flux_diffuser_only"): lambda k: ("same", ["model.diffusion_model." + k]),
    ("flux-flux_diffuser_only", "flux-flux"): lambda k: None if after("model.diffusion_model.", k) is None else ("same", [after("model.diffusion_model.", k)]),
    ("sd1-supermerger_blocks", "sd1-ldm"): blocks("OUT11", "BASE"),
    ("sdxl-supermerger_blocks", "sdxl-sgm"): blocks("OUT08", "VAE"),
}
NARROW = {("flux-flux", "flux-flux_diffuser_only")}              # the target leaves part of the source out


def check(rep, tier):
    m = methods()
    p, lib = m.prog, m.lib
    c, at = (lambda f, *a, **k: p.call(f, a, k)), p.getattr
    missing = anchor(p, "sd_mecha.streaming.StateDictKeyError")
    mcs = p.load("sd_mecha.extensions.model_configs")
    configs = {at(x, "identifier"): x for x in c(at(mcs, "get_all"))}
    bases = {at(x, "identifier") for x in c(at(mcs, "get_all_base"))}
    convs = {}
    for mm in c(at(m.mm, "get_all_converters")):
        src = c(at(mm, "get_input_configs"))
        s = at(at(src, "args")[0], "identifier")
        t = at(c(at(mm, "get_return_config"), at(src, "args"), at(src, "kwargs")), "identifier")
        convs[s, t] = mm
    for k in NAMES:
        if k not in convs:
            raise Broken(f"no conversion from {k[0]} to {k[1]} is registered")
    jobs = [(s, t, mm) for (s, t), mm in convs.items() if s in bases]
    loras = [(s, t, mm) for (s, t), mm in convs.items() if s not in bases]
    if len(loras) < 10:
        raise Broken("LoRA conversions are gone")

    class SD(dict):
        """a state dict that holds what it is given"""

        def __missing__(s, k):
            raise missing(k)

        def keys(s):
            return list(dict.keys(s))

    def job(s, t, mm):
        res, stats = [], [0, 0]
        name, what = NAMES.get((s, t)), f"conversion from {s} to {t}"

        def chk(ok, rule, msg):
            res.append((rule, bool(ok), what, WHERE, msg))

        def entry():
            lib.reset()
            source, target = configs[s], configs[t]
            keys = c(at(source, "keys"))
            sd = SD({k: lib.input(k, tuple(at(v, "shape"))) for k, v in keys.items()})
            sd.model_config = source
            names = {T("atom", k): k for k in keys}
            used, owner = set(), {}
            whole = all(x.shape == () for x in sd.values())
            f = at(mm, "__wrapped__")
            for k, meta in c(at(target, "keys")).items():
                stats[0] += 1
                want = name(k) if name is not None else NotImplemented
                provides = want is NotImplemented or want is not None and all(x in sd for x in want[1])
                try:
                    r = p.call(f, (sd,), {"key": k})
                except ControlFlow:
                    raise
                except BaseException as e:
                    if want is NotImplemented:
                        chk(isinstance(e, missing), "missing", f"{k!r}: {e!r} is raised")
                        continue
                    chk(isinstance(e, missing), "missing", f"{k!r}: {e!r} is raised")
                    chk(not provides, "exists", f"{k!r} is not converted ({e!r}), although the source has {want and want[1]}")
                    continue
                if not isinstance(r, TT):
                    chk(False, "shape", f"{k!r} is converted to a {type(r).__name__}")
                    continue
                chk(provides, "missing", f"{k!r} is computed as {terms.show(r.expr)[:100]}, although the source does not have it")
                got = [names[x] for x in terms.walk(r.expr) if x in names]
                chk(got, "exists", f"{k!r} is computed as {terms.show(r.expr)[:100]}, from no tensor of the source")
                if not whole:
                    chk(tuple(r.shape) == tuple(at(meta, "shape")), "shape", f"{k!r} is converted to shape {tuple(r.shape)}, the target config declares {tuple(at(meta, 'shape'))}")
                    for x in got:
                        chk(x not in owner, "distinct", f"{x!r} is used for {owner.get(x)!r} and for {k!r}")
                        owner.setdefault(x, k)
                used.update(got)
                if want is not NotImplemented and provides:
                    how, ks = want
                    ts = [sd[x] for x in ks]
                    e = {"same": lambda: ts[0], "cat": lambda: lib.call("cat", (ts,), {}), "transposed": lambda: ts[0].T,
                         "conv": lambda: ts[0] if len(ts[0].shape) == 1 else ts[0].reshape(*ts[0].shape, 1, 1)}[how]().expr
                    chk(same(r.expr, e), "source", f"{k!r} is converted to {terms.show(r.expr)[:200]}, not {terms.show(e)[:200]}")
            for k, x in sd.items():
                if (s, t) not in NARROW:
                    chk(k in used, "used", f"{k!r} is used for no key of the target")
                chk(x.root.writes == 0, "kept", f"the input {k!r} is written to")
            if (s, t) in NARROW:
                for k in sd:
                    if after("model.diffusion_model.", k) is not None:
                        chk(k in used, "used", f"{k!r} is used for no key of the target")
            stats[1] = len(used)
        n = 0
        for path in p.explore(entry, max_paths=8):
            n += 1
            if path.kind == "raise":
                raise path.value
        return res, stats

    # ---- LoRA: layers of each kind; the rank relative to the dimensions
    KINDS = [("linear", (8, 3), (3, 6), (8, 6)), ("linear", (6, 3), (3, 8), (6, 8)), ("linear", (4, 4), (4, 4), (4, 4)), ("linear of one row", (1, 2), (2, 6), (1, 6)), ("convolution 1x1", (8, 3, 1, 1), (3, 6, 1, 1), (8, 6, 1, 1)),
             ("convolution 1x1", (6, 3, 1, 1), (3, 8, 1, 1), (6, 8, 1, 1)), ("convolution 3x3", (8, 4, 1, 1), (4, 6, 3, 3), (8, 6, 3, 3)), ("convolution 3x3", (64, 2, 1, 1), (2, 3, 3, 3), (64, 3, 3, 3))]

    def lora(s, t, mm):
        res, stats = [], [0, 0]
        what = f"conversion from {s} to {t}"
        chk = lambda ok, rule, msg: res.append((rule, bool(ok), what, "sd_mecha/extensions/builtin/lycoris.py", msg))
        lkeys = list(c(at(configs[s], "keys")))
        stems = sorted({k.rsplit(".lora_", 1)[0] for k in lkeys if k.endswith(".lora_up.weight")})
        stem = next((x for x in stems), None)
        if stem is None:
            return res, stats
        back = {k.replace(".weight", "").replace(".", "_"): k for k in c(at(configs[t], "keys"))}
        key = next((k for q, k in back.items() if stem.endswith("_" + q) and stem == f"{stem.split('_')[0]}_{q}"), None)
        if key is None:
            return res, stats
        for kind, up, down, shape in KINDS:
            def entry():
                lib.reset()
                sd = SD({f"{stem}.lora_up.weight": lib.input("up", up), f"{stem}.lora_down.weight": lib.input("down", down), f"{stem}.alpha": lib.input("alpha", ())})
                sd.model_config = configs[s]
                r = p.call(at(mm, "__wrapped__"), (sd,), {"key": key})
                rank = down[0]
                u, d = (lib.input(x, y) for x, y in (("up", up), ("down", down)))
                if len(up) == 2:
                    w = u @ d
                elif down[2:] == (1, 1):
                    w = (u.reshape(up[:2]) @ d.reshape(down[:2])).reshape(shape)
                else:
                    w = None
                stats[0] += 1
                chk(tuple(r.shape) == shape, "lora", f"{kind} {up} {down}: the delta has shape {tuple(r.shape)}")
                scale = div(T("atom", "alpha"), rank)
                if w is not None:
                    want = mul(scale, w.expr)
                    chk(same(plain(r.expr), plain(want)), "lora", f"{kind} {up} {down}: the delta is {terms.show(r.expr)}, not {terms.show(want)}")
                else:                                       # linear in alpha / rank, and made of both weights
                    rest = div(plain(r.expr), scale)
                    left = {x._args[0] for x in terms.walk(rest) if x._op == "atom"} if terms.is_term(rest) else set()
                    chk({"up", "down"} <= left and "alpha" not in left, "lora", f"{kind} {up} {down}: the delta is {terms.show(r.expr)}, which is not alpha / {rank} times something made of both weights")
                chk(all(x.root.writes == 0 for x in sd.values()), "kept", f"{kind} {up} {down}: an input is written to")
            for path in p.explore(entry, max_paths=16):
                if path.kind == "raise":
                    chk(False, "lora", f"{kind} {up} {down}: {path.value!r} is raised")
        return res, stats

    def plain(e):
        """scalars leave reshapings, permutations, products and convolutions"""
        if not terms.is_term(e):
            return e
        memo = {}

        def go(x):
            if not terms.is_term(x):
                return x
            if x in memo:
                return memo[x]
            if x._op == "poly":
                r = 0
                for mono, cf in x._args[0]:
                    y = cf
                    for z in mono:
                        y = mul(y, go(z))
                    r = add(r, y)
            elif x._op in ("reshape", "permute", "squeeze", "unsqueeze") or x._op.startswith("conv") or x._op == "@":
                args, s = list(x._args), 1
                for i, z in enumerate(args):
                    if not terms.is_term(z):
                        continue
                    q = terms.poly(go(z))
                    if len(q) != 1:
                        args[i] = go(z)
                        continue
                    (mono, cf), = q.items()
                    s = mul(s, cf)
                    keep = 1
                    for y in mono:
                        if y._op == "atom" and y._args[0] == "alpha" or tensorlib.scalar(y):
                            s = mul(s, y)
                        else:
                            keep = mul(keep, y)
                    args[i] = keep
                r = mul(s, T(x._op, *args))
            else:
                r = x
            memo[x] = r
            return r
        return go(e)

    keys = formulas = 0
    for res, st in parallel([lambda j=j: job(*j) for j in jobs] + [lambda j=j: lora(*j) for j in loras]):
        keys += st[0]
        for rule, ok, what, loc, msg in res:
            formulas += rule == "lora"
            rep.check(ok, rule, what, loc, msg)
    rep.unit(*(f"{s} -> {t}" for s, t, _ in jobs + loras))
    rep.floor("conversions between formats", len(jobs), 7)
    rep.floor("target keys", keys, 9000)
    rep.floor("LoRA deltas", formulas, 200)
