#!/usr/bin/env python3
"""runseeds.py [id...]: run the check of each seeded bug's property on a patched copy (development helper)."""
import json, os, pathlib, subprocess, sys, tempfile, shutil, concurrent.futures as cf
SEEDED = pathlib.Path("/verif/seeded")

def one(s):
    prop = json.load(open(s / "meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="rs")
    try:
        subprocess.run(f"git clone -q /repo {d}/r && git -C {d}/r apply {s}/patch.diff", shell=True, check=True)
        r = subprocess.run(["python3-vt", "/verif/sa/run.py", prop], env=dict(os.environ, SA_REPO=f"{d}/r", SA_EVIDENCE=d), capture_output=True, text=True)
        lines = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
        hit = r.returncode == 1 and any(l.startswith(f"VIOLATION property={prop}") for l in lines)
        return s.name, prop, "caught" if hit else f"MISSED rc={r.returncode}", lines[0][:170] if lines else ""
    finally:
        shutil.rmtree(d, ignore_errors=True)

ids = sys.argv[1:] or sorted(p.name for p in SEEDED.iterdir())
with cf.ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, [SEEDED / i for i in ids]):
        print(*r, flush=True)
