"""Collects what a check analysed and what it found; writes evidence and the verdict."""
import collections
import json
import os
import pathlib
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("SA_REPO", "/repo")


class Broken(Exception):
    """The analysis cannot give a verdict (anchor gone, construct not interpretable)."""


class Report:
    def __init__(self, prop, tier, title=""):
        self.prop, self.tier, self.title = prop, tier, title
        self.t0 = time.time()
        self.findings = {}
        self.counts = collections.Counter()
        self.units = set()
        self.samples = []
        self.rules = {}
        self.assumptions = []
        self.floors = []

    # -- what was looked at -------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text

    def obligation(self, rule, n=1, sample=None):
        self.counts[rule] += n
        if sample is not None and sum(1 for s in self.samples if s.startswith(rule + ":")) < 8:
            self.samples.append(f"{rule}: {sample}")

    def unit(self, *names):
        self.units.update(str(n) for n in names)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def floor(self, what, count, minimum):
        """fewer instances than confirmed by hand means the analysis lost its anchors"""
        self.floors.append(f"{what}: {count} (floor {minimum})")
        if count < minimum:
            raise Broken(f"only {count} instance(s) of '{what}' were found, at least {minimum} are expected")

    # -- findings -------------------------------------------------------------
    def violation(self, rule, construct, loc, message, trace=()):
        key = f"{rule}|{construct}"
        if key not in self.findings:
            self.findings[key] = (rule, construct, str(loc), message, list(trace))

    def check(self, ok, rule, construct, loc, message, trace=()):
        self.obligation(rule, sample=f"{construct}")
        if not ok:
            self.violation(rule, construct, loc, message, trace)
        return ok

    # -- verdict ----------------------------------------------------------------
    def known(self):
        out = {}
        f = VERIF / "known-findings.txt"
        if f.exists():
            for line in f.read_text().splitlines():
                if line.startswith("known: "):
                    d = line[7:].split(" ", 2)
                    if len(d) >= 2 and d[0] == f"property={self.prop}" and d[1].startswith("key="):
                        out[d[1][4:].replace("%20", " ")] = d[2] if len(d) > 2 else ""
        return out

    def finish(self, level, explanation, exhaustive_note=""):
        known = self.known()
        new = []
        for key, (rule, construct, loc, msg, trace) in sorted(self.findings.items()):
            if key in known:
                print(f"KNOWN-FINDING: property={self.prop} {construct}: {msg}")
            else:
                new.append((rule, construct, loc, msg, trace))
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "coverage": {
                "explanation": explanation,
                "rules": self.rules,
                "obligations": dict(sorted(self.counts.items())),
                "obligations_total": sum(self.counts.values()),
                "instance_floors": self.floors,
                "analysed_units": sorted(self.units)[:400],
                "analysed_units_total": len(self.units),
                "samples": self.samples[:60],
            },
            "wall_s": round(time.time() - self.t0, 3),
            "assumptions": self.assumptions,
        }
        if new:
            ev["violations"] = [f"{loc}: [{rule}] {construct}: {msg}" for rule, construct, loc, msg, _ in new]
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        for a in self.floors:
            print(f"analysed {a}")
        print(f"obligations: {dict(sorted(self.counts.items()))}")
        if not new:
            print(f"OK property={self.prop} obligations={sum(self.counts.values())} wall={ev['wall_s']}s")
            return 0
        replay = d / f"{self.prop}.replay.txt"
        lines = []
        for rule, construct, loc, msg, trace in new:
            lines += [f"{loc}: [{rule}] {construct}", f"    rule: {self.rules.get(rule, rule)}", f"    {msg}"]
            lines += [f"      | {t}" for t in trace]
            lines.append("")
        replay.write_text("\n".join(lines))
        print("\n".join(lines[:200]))
        print(f"VIOLATION property={self.prop} replay={replay}")
        return 1
