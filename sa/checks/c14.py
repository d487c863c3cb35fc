import itertools
from ..recipelib import *

LEVEL = "other"
RULES = {
    "string": "a string literal comes back unchanged in every position of a recipe",
    "number": "a number, boolean or null comes back with the same type and value in every position of a recipe",
    "key": "dictionary keys come back unchanged and in order",
    "name": "paths, merge space names and merge method names come back unchanged",
    "file": "a recipe saved to a file comes back unchanged from the file",
}
EXPLANATION = ("Abstract interpretation of the writer and of the reader over strings of character classes. The classes are derived from the source (every character that occurs in a "
               "string constant of the module) and completed with one representative for each kind of character that string methods distinguish (white space, line boundaries, digits, "
               "non-ASCII, letters used by escapes and number forms); all words over two classes and all words over the special classes up to length three (thorough: four) are followed, plus words "
               "built from the module's own vocabulary; numbers are followed by lexical form.")
ASSUMPTIONS = ["float and int text forms of Python (repr/float/int) round-trip", "files keep text; reading translates line ends as Python's text mode does"]

NUMBERS = [0, 1, -1, 2, 255, -255, 10 ** 30, -10 ** 30, True, False, None, 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e16, -1e16, 1e22, 1e-7, -1e-7, 1.5e300, 1e-300, 5e-324,
           1.7976931348623157e308, 123456789.123, 0.1, 1 / 3, float("inf"), float("-inf"), float("nan"), 1e100, 12345678901234567890, 1e15, 3e2]
FILE = "sd_mecha/serialization.py"


def positions(r):
    """name -> (rule, node built around the words ws)"""
    c, m = r.call, r.m

    def dict_of(ws):
        return {f"k{i}": w for i, w in enumerate(ws)}
    return {
        "positional argument": ("string", lambda ws: c(m.t_many, *ws)),
        "argument between others": ("string", lambda ws: c(m.t_many, *[x for w in ws for x in (w, 1, "p")])),
        "keyword argument": ("string", lambda ws: c(m.t_many, *[c(m.t_kw, "p", b=w, c=w) for w in ws])),
        "value of a dictionary": ("string", lambda ws: c(r.literal, dict_of(ws))),
        "dictionary given as argument": ("string", lambda ws: c(m.t_none, dict_of(ws))),
        "literal with a merge space": ("string", lambda ws: c(m.t_many, *[c(r.literal, w, None, "weight") for w in ws])),
        "value of a nested dictionary": ("string", lambda ws: c(r.literal, {"a": dict_of(ws), "b": 1})),
        "root literal": ("string", lambda ws: c(r.literal, ws[0])),
        "key of a dictionary": ("key", lambda ws: c(r.literal, {w: 1.5 for w in ws})),
        "key of a dictionary before text": ("key", lambda ws: c(r.literal, {w: "v" for w in ws})),
        "key of a dictionary of recipes": ("key", lambda ws: c(r.literal, {w: c(r.literal, 1.5, None, "weight") for w in ws})),
        "path of a model": ("name", lambda ws: c(m.t_many, *[c(r.model, APath(w)) for w in ws])),
    }


def check(rep, tier):
    r = Recipes()
    chars, vocab = characters(r.prog)
    rep.floor("character classes", len(chars), 30)
    plain = [w for w in vocab if w.strip()]
    core = [c for c in chars if not c.isalnum() and c in " \\\"=&#\n\r'."] + ["n", "1"]
    words = {""} | set(chars) | {a + b for a in chars for b in chars} | {"".join(t) for t in itertools.product(core, repeat=3)}
    if tier != "quick":
        words |= {"".join(t) for t in itertools.product(core, repeat=4)} | {"".join(t) for t in itertools.product(chars, repeat=3)}
    base = ["null", "true", "false", "None", "True", "1", "-1", "1.0", "1e5", "1_0", "0x10", "inf", "-inf", "nan", "Infinity", "&0", "&1", "&", "merge", "dict", "literal", "model",
            "a=b", "k0=1", "model_config=null", "merge_space=\"weight\"", "a b", "#", "# a", "version 0.1.0", "\\n", "\\\\n", "C:\\new\\readme", "\"", "\"\"", "\"a\" \"b\"", "é=ü",
            "{}", "{\"a\": 1}", "[1]", "~", "-", "--", "..", "/", "a/../b", "./a", "t_many", "\u2028x", "x\x85y", "tab\tx", "\x1f", "\ud7ff"] + plain
    words |= set(base) | {c + w for c in core for w in base} | {w + c for c in core for w in base} | {c + w + c for c in core for w in base}
    words = sorted(words)
    singles = sorted(set(chars) | set(base) | {a + b for a in core for b in core})
    pos = positions(r)

    def one(build, ws, how=None):
        def entry():
            node = build(ws)
            bad = None
            for name, text, src in r.round_trips(node):
                try:
                    back = r.call(r.deserialize, src)
                except ControlFlow:
                    raise
                except Exception as e:
                    return f"read back from {name}: {type(e).__name__}: {e}"
                d = r.diff(node, back)
                if d:
                    return f"read back from {name}: {d}"
                if how == "text only":
                    break
            return None
        v, e = r.once(entry)
        return v if e is None else f"{type(e).__name__}: {e}"

    def sweep(position, ws, size):
        rule, build = pos[position]
        out, n = [], 0
        for i in range(0, len(ws), size):
            batch = ws[i:i + size]
            n += len(batch)
            how = None if i % (size * 4) == 0 or size == 1 else "text only"
            if one(build, batch, how) is None:
                continue
            found = False
            for w in batch:
                d = one(build, [w])
                if d is not None:
                    found = True
                    out.append((rule, position, w, d))
                    if len(out) > 3:
                        return n, out
            if not found:
                out.append((rule, position, batch, one(build, batch, how)))
        return n, out

    jobs = []
    for name in pos:
        ws = words if name in ("positional argument", "key of a dictionary", "value of a dictionary") else singles
        if name == "path of a model":
            ws = [w for w in ws if w and "\x00" not in w]
        size = 1 if name == "root literal" else 60
        if name.startswith("key"):
            size = 80
        k = 8 if len(ws) > 600 else 2
        jobs += [lambda name=name, part=ws[i::k], size=size: sweep(name, part, size) for i in range(k)]

    # numbers, in every position
    def numbers():
        out, n = [], 0
        for name in pos:
            rule, build = pos[name]
            if rule != "string":
                continue
            for x in NUMBERS:
                n += 1
                d = one(build, [x])
                if d is not None:
                    out.append(("number", name, x, d))
            if name != "root literal":
                n += 1
                d = one(build, [x for x in NUMBERS if x is not None] if name == "dictionary given as argument" else NUMBERS)
                if d is not None:
                    out.append(("number", name, "all numbers together", d))
        return n, out
    jobs.append(numbers)

    # registered names
    def names():
        out, n = [], 0
        for w in ("my space", "w\\e", "a=b", "a\"b", "null", "1.5", "&0", "été", "#x", "x\ny"):
            def entry():
                r.call(r.attr(r.ms, "register_merge_space"), w)
                a = r.call(r.literal, 1.5, None, w)
                b = r.call(r.model, APath("a.safetensors"), merge_space=w)
                for node in (a, b):
                    d = r.diff(node, r.call(r.deserialize, r.call(r.serialize, node)))
                    if d:
                        return d
            v, e = r.once(entry)
            n += 1
            if v or e:
                out.append(("name", "merge space", w, v or repr(e)))

            def entry():
                f = r.m.t_names = r.prog.source("named", f"from sd_mecha import *\nfrom torch import Tensor\n@merge_method(identifier={w!r})\ndef t_name(a: Parameter(float) = 1.0) -> Return(Tensor, 'weight'):\n    return a\n").t_name
                node = r.call(f, 2.0)
                return r.diff(node, r.call(r.deserialize, r.call(r.serialize, node)))
            v, e = r.once(entry)
            n += 1
            if v or e:
                out.append(("name", "merge method", w, v or repr(e)))
        return n, out
    jobs.append(names)

    # through a file
    def files():
        out, n = [], 0
        step = 60
        ws = singles
        for i in range(0, len(ws), step):
            for dest in ("/out/r.mecha", APath("/out/r.mecha"), "r.mecha"):
                def entry():
                    r.fs.files.clear()
                    node = r.call(r.m.t_kd, r.call(r.literal, {w: w for w in ws[i:i + step]}), c="x")
                    text = r.call(r.serialize, node, output=dest)
                    at = str(APath(str(dest)).absolute())
                    if at not in r.fs.files:
                        return f"serialize wrote {sorted(r.fs.files)}, not {at}"
                    d = r.diff(node, r.call(r.from_path, APath(str(dest))))
                    if d:
                        return f"read back from the file: {d}"
                    return r.diff(node, r.call(r.deserialize, text))
                v, e = r.once(entry)
                n += 1
                if v or e:
                    out.append(("file", f"recipe file {dest}", "", v or f"{type(e).__name__}: {e}"))
        return n, out
    jobs.append(files)

    total = 0
    for n, out in parallel(jobs):
        total += n
        for rule, position, w, d in out:
            rep.violation(rule, position, FILE, f"{w!r} as {position}: {d}")
    for name, (rule, _) in pos.items():
        rep.obligation(rule, sample=name)
    rep.obligation("string", total)
    rep.unit(*sorted(f for f in r.prog.functions_seen if "seriali" in f), "sd_mecha.serialization")
    rep.floor("words followed", total, 4000)
