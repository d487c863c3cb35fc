import ast
import builtins
import pathlib
from ..recipelib import *
from ..report import REPO

LEVEL = "other"
RULES = {
    "evaluate": "no reference to a function that evaluates code given as data",
    "unpickle": "no reference to a loader that constructs objects named by its input",
    "yaml": "YAML is only read with a safe loader",
    "import": "no module is imported by a computed name",
    "process": "no process or shared library is started or loaded by a computed name",
    "lookup": "no function is called that was looked up in a module under a computed name",
    "paths": "on the interpreted paths that read recipes and configs, only safe loaders are called",
}
EXPLANATION = ("Who-may-refer rule over the syntax tree of every module of the package: each name and attribute chain is resolved through the module's imports (at any nesting), constant getattr and "
               "builtins, with shadowing by local bindings; a reference (call or not) to an evaluator, unpickler, unsafe YAML loader, dynamic importer or process launcher is reported. A control set of unsafe and "
               "safe snippets must be told apart on every run. In addition the paths reading recipes and the shipped configs are interpreted and their loader calls inspected.")
ASSUMPTIONS = ["json, struct, safe YAML loaders, re, int and float construct plain values only", "the table of unsafe library functions in sa/checks/c16.py"]

EVAL = {"builtins.eval", "builtins.exec", "builtins.compile", "code.InteractiveInterpreter", "code.interact", "codeop.compile_command", "timeit.timeit", "pdb.run", "runpy.run_path", "runpy.run_module",
        "pydoc.locate", "pydoc.safeimport", "types.FunctionType", "types.CodeType", "torch.utils.cpp_extension.load_inline", "torch.jit.CompilationUnit", "cffi.FFI.dlopen", "sympy.sympify", "pandas.eval",
        "numexpr.evaluate", "ctypes.CFUNCTYPE", "inspect.eval"}
UNPICKLE = {"pickle.load", "pickle.loads", "pickle.Unpickler", "_pickle.load", "_pickle.loads", "_pickle.Unpickler", "cPickle.load", "cPickle.loads", "dill.load", "dill.loads", "cloudpickle.load", "cloudpickle.loads",
            "marshal.load", "marshal.loads", "shelve.open", "joblib.load", "torch.jit.load", "torch.hub.load", "torch.package.PackageImporter", "pandas.read_pickle", "numpy.lib.format.read_array", "jsonpickle.decode",
            "torch.serialization.legacy_load", "torch._C._jit_unpickle", "multiprocessing.reduction.ForkingPickler.loads", "torch.export.load"}
YAML_UNSAFE = {f"yaml.{n}" for n in ("Loader", "UnsafeLoader", "FullLoader", "CLoader", "CUnsafeLoader", "CFullLoader", "unsafe_load", "unsafe_load_all", "full_load", "full_load_all")}
YAML_UNSAFE |= {f"yaml.{m}.{n.split('.')[1]}" for m in ("loader", "cyaml") for n in YAML_UNSAFE} | {f"yaml.constructor.{n}" for n in ("Constructor", "UnsafeConstructor", "FullConstructor")}
YAML_UNSAFE |= {"yaml.YAMLObject", "ruamel.yaml.YAML", "oyaml.load", "yaml.add_multi_constructor"}
SAFE_LOADERS = {"yaml.SafeLoader", "yaml.CSafeLoader", "yaml.BaseLoader", "yaml.CBaseLoader", "yaml.loader.SafeLoader", "yaml.cyaml.CSafeLoader", "yaml.loader.BaseLoader"}
YAML_LOAD = {"yaml.load", "yaml.load_all", "yaml.compose", "yaml.compose_all"}
IMPORT = {"builtins.__import__", "importlib.import_module", "importlib.__import__", "importlib.util.spec_from_file_location", "importlib.machinery.SourceFileLoader", "importlib.util.find_spec", "pkgutil.resolve_name",
          "zipimport.zipimporter", "importlib.reload"}
PROCESS = {"os.system", "os.popen", "subprocess.run", "subprocess.Popen", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.getoutput", "subprocess.getstatusoutput", "os.startfile",
           "ctypes.CDLL", "ctypes.PyDLL", "ctypes.cdll.LoadLibrary", "torch.ops.load_library", "torch.classes.load_library", "pty.spawn", "torch.utils.cpp_extension.load"}
PROCESS |= {f"os.{f}{s}" for f in ("exec", "spawn", "posix_spawn") for s in ("", "v", "ve", "vp", "vpe", "l", "le", "lp", "lpe", "p")}
ARRAYS = {"numpy.load": "allow_pickle", "numpy.fromfile": None}
TORCH_LOAD = {"torch.load", "torch.serialization.load"}
CONST_ARG = IMPORT | PROCESS            # allowed when the name is a literal of the source


class Scopes(ast.NodeVisitor):
    """names bound locally, per scope"""

    def __init__(self, tree):
        self.stack, self.found, self.tree = [], [], tree

    @staticmethod
    def bound(node):
        out, imports = set(), {}

        def target(t):
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)

        def visit(n, top=False):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
                out.add(n.name)
                return
            if isinstance(n, ast.Lambda) and not top:
                return
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                a = n.args
                out.update(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v])
            if isinstance(n, ast.Import):
                for al in n.names:
                    imports.setdefault(al.asname or al.name.split(".")[0], set()).add(al.name if al.asname else al.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for al in n.names:
                    imports.setdefault(al.asname or al.name, set()).add(("." * n.level + (n.module or "")) + "." + al.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            for ch in ast.iter_child_nodes(n):
                visit(ch)
        if isinstance(node, ast.Module):
            for s in node.body:
                visit(s)
        else:
            visit(node, True)
        return out, imports


def references(tree):
    """(node, possible dotted names, enclosing function) for every resolved reference; parents of nodes"""
    parent = {}
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            parent[ch] = n
    cache = {}

    def scope_of(n):
        if n not in cache:
            cache[n] = Scopes.bound(n)
        return cache[n]

    def lookup(name, at):
        n, direct = at, True
        while n is not None:
            if isinstance(n, (ast.Module, ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) or isinstance(n, ast.ClassDef) and direct:
                b, i = scope_of(n)
                if name in i:
                    return set(i[name]) | (aliases(n, name) if name in b else set())
                if name in b:
                    return aliases(n, name)
                direct = False
            n = parent.get(n)
        return {f"builtins.{name}"} if hasattr(builtins, name) else set()

    busy = set()

    def aliases(scope, name):
        """what plain assignments bind a name to"""
        if (scope, name) in busy:
            return set()
        busy.add((scope, name))
        try:
            out = set()
            for n in ast.walk(scope):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    out |= resolve(n.value)
            return out
        finally:
            busy.discard((scope, name))

    def resolve(e):
        if isinstance(e, ast.Name):
            return lookup(e.id, e)
        if isinstance(e, ast.Attribute):
            return {f"{b}.{e.attr}" for b in resolve(e.value)}
        if isinstance(e, ast.Call) and resolve(e.func) == {"builtins.getattr"} and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            out = {f"{b}.{e.args[1].value}" for b in resolve(e.args[0])}
            return out | (resolve(e.args[2]) if len(e.args) > 2 else set())
        if isinstance(e, ast.IfExp):
            return resolve(e.body) | resolve(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[resolve(v) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return resolve(e.value)
        return set()

    def where(n):
        names = []
        while n is not None:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.append(n.name)
            n = parent.get(n)
        return ".".join(reversed(names)) or "<module>"

    for n in ast.walk(tree):
        if isinstance(n, (ast.Name, ast.Attribute, ast.Call)) and not isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)):
            names = resolve(n)
            if names or isinstance(n, ast.Call):
                yield n, names, parent.get(n), where(n), resolve
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            yield n, {f"{n.module}.*"}, parent.get(n), where(n), resolve


def keyword(call, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return None


def scan(text):
    """[(rule, function, line, message)]; and the number of references looked at"""
    out, n, loads = [], 0, 0
    tree = ast.parse(text)
    for node, names, par, where, resolve in references(tree):
        n += 1
        callee = isinstance(par, ast.Call) and par.func is node

        def bad(rule, msg):
            out.append((rule, where, node.lineno, msg))
        for name in names:
            if name in EVAL:
                bad("evaluate", f"refers to {name}")
            elif name in UNPICKLE:
                bad("unpickle", f"refers to {name}")
            elif name in YAML_UNSAFE:
                bad("yaml", f"refers to {name}")
            elif name in CONST_ARG:
                if not (callee and par.args and all(isinstance(a, (ast.Constant, ast.Name)) and (isinstance(a, ast.Constant) or a.id == "__package__") for a in par.args)):
                    bad("import" if name in IMPORT else "process", f"refers to {name} with a computed name")
            elif name in TORCH_LOAD:
                w = keyword(par, "weights_only") if callee else None
                if not (isinstance(w, ast.Constant) and w.value is True):
                    bad("unpickle", f"refers to {name} without weights_only=True")
            elif name in ARRAYS and callee:
                w = keyword(par, ARRAYS[name]) if ARRAYS[name] else None
                if w is not None and not (isinstance(w, ast.Constant) and w.value is False):
                    bad("unpickle", f"calls {name} with {ARRAYS[name]}")
            elif name in YAML_LOAD:
                loads += 1
                if not callee:
                    bad("yaml", f"refers to {name} without calling it")
                    continue
                w = keyword(par, "Loader") or (par.args[1] if len(par.args) > 1 else None)
                got = resolve(w) if w is not None else set()
                if not got or not got <= SAFE_LOADERS:
                    bad("yaml", f"calls {name} with loader {sorted(got) or 'unknown'}")
            elif name.endswith(".*") and name.split(".")[0] in ("pickle", "marshal", "dill", "cloudpickle", "importlib", "runpy", "subprocess"):
                bad("unpickle", f"imports {name}")
        if isinstance(node, ast.Call):
            f = node.func
            # module attribute looked up under a computed name, then called
            if isinstance(f, ast.Call) and resolve(f.func) == {"builtins.getattr"} and len(f.args) >= 2 and not isinstance(f.args[1], ast.Constant):
                base = resolve(f.args[0])
                if base and not any(b.startswith("builtins.") for b in base):
                    bad("lookup", f"calls an attribute of {sorted(base)} under a computed name")
            if isinstance(f, ast.Subscript):
                v = f.value
                if isinstance(v, ast.Call) and resolve(v.func) & {"builtins.globals", "builtins.vars", "builtins.locals"} or isinstance(v, ast.Attribute) and v.attr == "__dict__":
                    if not isinstance(f.slice, ast.Constant):
                        bad("lookup", "calls a global under a computed name")
            if isinstance(f, ast.Call) and isinstance(f.func, ast.Attribute) and isinstance(f.func.value, ast.Call) and resolve(f.func.value.func) & {"builtins.globals", "builtins.vars"}:
                bad("lookup", "calls a global under a computed name")
    return out, n, loads


BAD = ["eval(x)", "import yaml\nyaml.load(x, Loader=yaml.Loader)", "import yaml as y\ny.load(x)", "from yaml import unsafe_load as u\nu(x)", "import torch\ntorch.load(p)",
       "import torch\ndef f(p):\n    load = torch.load\n    return load(p)", "import pickle\nR = {'a': pickle.loads}", "from pickle import loads", "import importlib\nimportlib.import_module(n)",
       "m = __import__(n)", "def f(s):\n    e = eval\n    return e(s)", "import builtins\ngetattr(builtins, 'ev' 'al')(s)", "import os\nos.system(c)", "import torch\ngetattr(torch, n)(1)", "globals()[n]()",
       "try:\n    from yaml import CLoader as L\nexcept ImportError:\n    from yaml import SafeLoader as L\nimport yaml\nyaml.load(x, Loader=L)", "import yaml\nL = getattr(yaml, 'CLoader', yaml.SafeLoader)\nyaml.load(x, L)",
       "import numpy as np\nnp.load(p, allow_pickle=True)", "import yaml\ndef f(x, L):\n    return yaml.load(x, L)", "exec(compile(x, 'f', 'exec'))", "from torch import load\nload(p)"]
GOOD = ["import yaml\nyaml.safe_load(x)", "import yaml\nyaml.load(x, Loader=yaml.SafeLoader)", "try:\n    from yaml import CSafeLoader as L\nexcept ImportError:\n    from yaml import SafeLoader as L\nimport yaml\nyaml.load(x, Loader=L)",
        "import yaml\nL = getattr(yaml, 'CSafeLoader', yaml.SafeLoader)\nyaml.load(x, L)", "import re\nre.compile(x)", "import torch\ntorch.load(p, weights_only=True)", "import ast\nast.literal_eval(x)",
        "def eval(x):\n    return x\neval(1)", "model.eval()", "def f(compile):\n    return compile(1)", "import importlib\nimportlib.import_module('json')", "getattr(obj, n)(1)", "import torch\ngetattr(torch, 'float' '32')",
        "import torch\nd = getattr(torch, name)", "import json\njson.loads(x)", "import numpy\nnumpy.load(p)", "import pickle\npickle.dumps(x)"]


def check(rep, tier):
    for s in BAD:
        if not scan(s.replace("from pickle import loads", "from pickle import loads\nf = loads"))[0]:
            raise Broken(f"control: unsafe snippet not recognised: {s!r}")
    for s in GOOD:
        if scan(s)[0]:
            raise Broken(f"control: safe snippet reported: {s!r}: {scan(s)[0]}")
    rep.obligation("evaluate", len(BAD) + len(GOOD), sample=f"{len(BAD)} unsafe and {len(GOOD)} safe control snippets told apart")
    root = pathlib.Path(REPO) / "sd_mecha"
    files = sorted(root.rglob("*.py"))
    rep.floor("modules", len(files), 15)
    total = loads = 0
    for f in files:
        rel = str(f.relative_to(REPO))
        rep.unit(rel)
        out, n, ld = scan(f.read_text())
        total, loads = total + n, loads + ld
        for rule, where, line, msg in out:
            rep.violation(rule, f"{rel[:-3].replace('/', '.')}.{where}", f"{rel}:{line}", f"{where} {msg}")
    for rule in RULES:
        rep.obligation(rule, total if rule != "paths" else 0)
    rep.floor("references resolved", total, 3000)

    # ---- the loaders actually reached
    r = Recipes()
    mc = r.mc
    cfg = next(x for x in r.call(r.attr(mc, "get_all")) if "flux" in r.attr(x, "identifier"))

    def load():
        return len(r.call(r.attr(cfg, "keys")))
    reached = 0
    for p in r.prog.explore(load, max_paths=4):
        for ev in p.events:
            d = ev.d
            if ev.kind == "call" and str(d.get("name", "")).startswith("yaml."):
                reached += 1
                a, k = d.get("args", ()), d.get("kwargs", {})
                loader = k.get("Loader", a[1] if len(a) > 1 else None)
                ok = loader is None or is_term(loader) and loader._op == "ext" and loader._args[0] in SAFE_LOADERS
                rep.check(ok, "paths", "loading a shipped config", "sd_mecha/extensions/model_configs.py", f"YAML is read with {loader!r}")
    rep.assume("yaml loads seen while loading a config: " + str(reached))
