from ..reader import *
from ..writer import Writer

LEVEL = "proof"
RULES = {
    "read": "a tensor indexed under a safetensors dtype name is read with that dtype; an unknown name is rejected",
    "write": "a tensor is indexed under the safetensors name of its dtype with the byte size of that dtype; other dtypes are rejected",
    "agree": "what can be read can be written and the reverse",
    "metadata": "metadata of a file and header values computed from metadata use the same names and sizes",
    "cast": "every dtype a file can have is known to casts by a name that maps back to it",
}
EXPLANATION = ("Abstract interpretation, for each dtype of torch and each dtype name of the safetensors specification, of reading a tensor, storing a "
               "tensor, computing header values from metadata, and casting by dtype and by the name get_dtype reports; exhaustive over dtypes.")
ASSUMPTIONS = ["torch element sizes and the safetensors dtype names are the frozen specification (sa/models.py, sa/writer.py)"]
UNKNOWN = ["F8_E8M0", "F4", "C64", "f32", "", "float32"]


def one(prog, entry):
    out = [p for p in prog.explore(entry, max_paths=4000) if p.kind != "cut"]
    if not out:
        raise Broken("no trace")
    return out


def check(rep, tier):
    file = "sd_mecha/streaming.py"
    r = Reader()
    readable, writable = {}, {}
    for name in sorted(set(NAMES.values())):
        def entry():
            r.file(["a"], dtype=name, nonempty=True)
            r.open()
            meta = list(r.prog.iterate(r.prog.call(r.prog.getattr(r.obj, "metadata"), (), {})))
            return r.get("a"), meta
        want = next(models.DTYPES[d] for d, s in NAMES.items() if s == name)
        for p in one(r.prog, entry):
            if p.kind == "raise":
                if not any("short transfer" in c and v for c, v in p.choices):
                    rep.violation("read", f"reading dtype {name}", file, f"raises {p.value!r}", trace_of(p))
                continue
            t, meta = p.value
            readable[name] = t.dtype
            rep.check(t.dtype is want, "read", f"reading dtype {name}", file, f"read as {t.dtype}")
            ok = len(meta) == 1 and meta[0][0] == "a" and meta[0][1].dtype is want
            rep.check(ok, "metadata", f"metadata() for dtype {name}", file, f"reported as {getattr(meta[0][1], 'dtype', None) if meta else 'nothing'}")
    for name in UNKNOWN:
        def entry():
            r.file(["a"], nonempty=True)
            parse = r.io.fs.parsed["header"]

            def bad(t):
                h = parse(t)
                h["a"]["dtype"] = name
                return h
            r.io.fs.parsed["header"] = bad
            r.open()
            return r.get("a")
        rep.check(all(p.kind == "raise" for p in one(r.prog, entry)), "read", f"reading unknown dtype {name!r}", file, "returns a tensor")

    w = Writer(rep)
    w.nonempty = w.io.index_fits = True
    for name, d in models.DTYPES.items():
        def entry():
            w.open()
            w.store("k", w.tensor("k", name))
            w.close()
            prob, start, index = w.layout()
            return prob, (index or {}).get("k"), [] if prob else w.data_problems(start, index)
        ps = one(w.prog, entry)
        if all(p.kind == "raise" for p in ps):
            rep.check(name not in NAMES, "write", f"storing dtype {name}", file, f"raises {ps[0].value!r}")
            continue
        for p in ps:
            if p.kind == "raise":
                rep.violation("write", f"storing dtype {name}", file, f"raises {p.value!r}", trace_of(p))
                continue
            prob, e, data = p.value
            if e:
                writable[e.get("dtype")] = d
            rep.check(not prob and e and e.get("dtype") == NAMES.get(name) and not data, "write", f"storing dtype {name}", file,
                      prob or (data and data[0]) or f"indexed as {e and e.get('dtype')!r}", trace_of(p))
    rep.check(set(readable) == set(writable), "agree", "readable and writable dtypes", file,
              f"only readable: {sorted(set(readable) - set(writable))}, only writable: {sorted(map(str, set(writable) - set(readable)))}")

    prog = w.prog
    for name, spec in NAMES.items():
        d = models.DTYPES[name]

        def entry():
            w.io.fresh()
            n, m, off = (w.io.lin.sym(x) for x in ("rows", "cols", "offset"))
            md = prog.call(w.meta, (models.Size((n, m)), d), {})
            bylist = prog.call(w.meta, ([2, 3], name), {})
            h = prog.call(prog.getattr(md, "safetensors_header_value"), (off,), {})
            return h, prog.call(prog.getattr(md, "get_byte_size"), (), {}), bylist.dtype, n * m * d.itemsize, off
        for p in one(prog, entry):
            if p.kind == "raise":
                rep.violation("metadata", f"TensorMetadata of dtype {name}", file, f"raises {p.value!r}")
                continue
            h, size, named, want, off = p.value
            ok = h["dtype"] == spec and terms.same(h["data_offsets"][0], off) and terms.same(h["data_offsets"][1] - off, want) and terms.same(size, want)
            rep.check(ok, "metadata", f"TensorMetadata of dtype {name}", file, f"header value {h}, byte size {show(size)}")
            rep.check(named is d, "metadata", f"TensorMetadata built from the name {name!r}", file, f"has dtype {named}")

    lit, visitor = anchor(prog, "sd_mecha.recipe_nodes.LiteralRecipeNode"), anchor(prog, "sd_mecha.merging.KeyMergeVisitor")
    struct = anchor(prog, "sd_mecha.extensions.model_configs.StructuralModelConfig")
    km = anchor(prog, "sd_mecha.extensions.model_configs.KeyMetadata")
    get_dtype = anchor(prog, "sd_mecha.get_dtype")

    def node(t):
        cfg = prog.call(struct, ({"k": prog.call(km, (t.shape, t.dtype), {})},), {})
        return prog.call(lit, ({"k": t},), {"model_config": cfg})

    def value(n):
        return prog.call(prog.getattr(n, "accept"), (prog.call(visitor, ("k",), {}),), {})
    names = {}
    mfile = "sd_mecha/extensions/builtin/merge_methods/__init__.py"
    for name in NAMES:
        d = models.DTYPES[name]

        def entry():
            w.io.fresh()
            w.io.lin.extra = []
            src = w.tensor("k", "float32" if name != "float32" else "float16")
            direct = value(prog.call(prog.getattr(node(src), "to"), (), {"dtype": d}))
            reported = value(prog.call(get_dtype, (node(w.tensor("k", name)),), {}))
            named = value(prog.call(prog.getattr(node(src), "to"), (), {"dtype": reported}))
            return direct.dtype, reported, named.dtype
        for p in one(prog, entry):
            if p.kind == "raise":
                rep.violation("cast", f"casting to {name}", mfile, f"raises {p.value!r}", trace_of(p))
                continue
            direct, reported, named = p.value
            rep.check(direct is d, "cast", f"casting to torch.{name}", mfile, f"gives {direct}")
            rep.check(named is d, "cast", f"casting to the name get_dtype gives for torch.{name} ({reported!r})", mfile, f"gives {named}")
            names.setdefault(reported, set()).add(name)
    for k, v in names.items():
        rep.check(len(v) == 1, "cast", f"dtype name {k!r}", mfile, f"stands for {sorted(v)}")
    rep.unit(*sorted(f for f in (w.prog.functions_seen | r.prog.functions_seen) if "streaming" in f or "merge_methods" in f))
    rep.floor("readable dtypes", len(readable), 10)
    rep.floor("writable dtypes", len(writable), 10)
    rep.floor("castable dtypes", len(names), 10)
