#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: build seeded/<id>/ from specs (list SEEDS of dicts: id, property, needs, breaks,
edits [(file, old, new)...], demo), keeping only those that were confirmed: the patch changes lines of the original
repository, the stable tests pass with it, and the demonstration passes without and fails with it."""
import json, os, pathlib, shutil, subprocess, sys, tempfile, runpy
ORIG = "9d9543e"
OUT = pathlib.Path("/verif/seeded")
DEMO_SH = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def build(spec):
    d = pathlib.Path(tempfile.mkdtemp(prefix="seed"))
    try:
        sh(f"git -C /repo worktree prune; git clone -q /repo {d}/repo", check=True)
        repo = d / "repo"
        for file, old, new in spec["edits"]:
            f = repo / file
            s = f.read_text()
            if s.count(old) != 1:
                return f"{file}: old text occurs {s.count(old)} times"
            f.write_text(s.replace(old, new))
        diff = sh(f"git -C {repo} diff").stdout
        removed = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        files = {l[6:] for l in diff.splitlines() if l.startswith("--- a/")}
        orig = {l.strip() for f in files for l in sh(f"git -C /repo show {ORIG}:{f}").stdout.splitlines()}
        new_lines = [l for l in removed if l and l not in orig]
        if new_lines:
            return f"changes lines that are not original: {new_lines}"
        if not any(removed):
            note = "adds lines only"
        else:
            note = ""
        dest = d / "seed"
        dest.mkdir()
        (dest / "demo.sh").write_text(DEMO_SH)
        (dest / "demo.py").write_text(spec["demo"].lstrip("\n"))
        bad = sh(f"bash {dest}/demo.sh", cwd=repo)
        good = sh(f"bash {dest}/demo.sh", cwd="/repo")
        if good.returncode != 0:
            return "demo fails on the unchanged tree:\n" + good.stdout + good.stderr[-2000:]
        if bad.returncode == 0:
            return "demo passes with the patch\n" + bad.stdout
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        names = [s.split("::") for s in stable]
        ids = " ".join(f"{m.replace('.', '/')}.py::{t}" for m, t in names)
        t = sh(f"PYTHONPATH={repo} CUDA_VISIBLE_DEVICES= /opt/venv/bin/python -m pytest -q -p no:cacheprovider {ids}", cwd=repo)
        if t.returncode != 0:
            return "tests fail: " + t.stdout[-1500:]
        imp = sh("PYTHONPATH=$PWD /opt/venv/bin/python -W ignore -c 'import sd_mecha,sys; print(sd_mecha.__file__)'", cwd=repo)
        if str(repo) not in imp.stdout:
            return "wrong import: " + imp.stdout + imp.stderr
        o = OUT / spec["id"]
        shutil.rmtree(o, ignore_errors=True)
        o.mkdir(parents=True)
        (o / "patch.diff").write_text(diff)
        shutil.copy(dest / "demo.sh", o)
        shutil.copy(dest / "demo.py", o)
        (o / "meta.json").write_text(json.dumps({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, indent=1) + "\n")
        return f"ok {note} ({(bad.stderr.strip().splitlines() or ['?'])[-1][:150]})"
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    for s in specs:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        print(s["id"], build(s), flush=True)
