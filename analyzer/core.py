"""Running one rule: sources -> facts -> findings -> verdict and evidence."""
from __future__ import annotations
import json
import os
import sys
import time
import traceback

from .program import Program, AnalysisBroken, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SELF = "dsptoolbox._verif_selfcheck"


class Finding:
    """One violated instance. `key` names the rule and the construct, never a
    line number."""

    def __init__(self, key, loc, msg, chain=()):
        self.key, self.loc, self.msg, self.chain = key, loc, msg, list(chain)

    def text(self):
        c = "  via " + " -> ".join(x.replace("dsptoolbox.", "") for x in self.chain) if self.chain else ""
        return f"{self.loc}: {self.msg} [{self.key}]{c}"


def load_known(prop):
    """KNOWN lines: `known: property=C15 key=<key> <what fails>`"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if not line.startswith("known: "):
                continue
            parts = line.split(None, 3)
            kv = dict(x.split("=", 1) for x in parts[1:3])
            if kv.get("property") == prop:
                out[kv["key"]] = parts[3].strip() if len(parts) > 3 else ""
    return out


class Ctx:
    def __init__(self, tier, overlay_src):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.prog = Program(overlay={SELF: overlay_src} if overlay_src else None)
        self.notes = []

    @property
    def selfmod(self):
        return self.prog.modules.get(SELF)

    def self_functions(self):
        m = self.selfmod
        return [f for f in self.prog.functions if f.module is m and f.cls is None] if m else []


def check(rule, prop, tier, seed):
    """-> exit code"""
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ctx = Ctx(tier, getattr(rule, "SELFCHECK", None))
    findings, selfhits, cov = rule.run(ctx)
    # the rule must still fire on its positive examples and not on the others
    want = set(getattr(rule, "SELF_BAD", ()))
    got = set(selfhits)
    broken = []
    if want - got:
        broken.append(f"rule no longer fires on its positive examples: {sorted(want - got)}")
    if got - want:
        broken.append(f"rule fires on its negative examples: {sorted(got - want)}")
    for name, minimum in getattr(rule, "MINIMUM", {}).items():
        if cov.get(name, 0) < minimum:
            broken.append(f"{name} = {cov.get(name, 0)} is below the confirmed minimum {minimum}")
    known = load_known(prop)
    uniq = {}
    for f in findings:
        uniq.setdefault(f.key, f)
    new, seen = [], []
    for k in sorted(uniq):
        (seen if k in known else new).append(uniq[k])
    for f in seen:
        print(f"KNOWN-FINDING: property={prop} {f.key} {known[f.key]}")
    for k in sorted(set(known) - set(uniq)):
        print(f"note: listed finding no longer reported: {k}")
    if broken and not new:
        raise AnalysisBroken("; ".join(broken))
    for b in broken:
        # the examples are analysed together with the repository's own classes: a
        # defect in those shows in the examples too
        print(f"note: {b}")
    replay = None
    if new:
        replay = os.path.join(evdir, f"{prop}.violations.txt")
        with open(replay, "w", encoding="utf-8") as fh:
            for f in new:
                fh.write(f.text() + "\n")
        for f in new[:40]:
            print(f"VIOLATION property={prop} replay={replay} :: {f.text()}")
        if len(new) > 40:
            print(f"... and {len(new) - 40} more in {replay}")
    cov = dict(cov)
    cov["explanation"] = " ".join(rule.EXPLANATION.split())
    cov["selfcheck_examples_fired"] = len(want)
    cov["known_findings_reported"] = len(seen)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "assumptions": [" ".join(a.split()) for a in getattr(rule, "ASSUMPTIONS", [])]}
    with open(os.path.join(evdir, f"{prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
    counts = {k: v for k, v in cov.items() if isinstance(v, int)}
    print(f"{prop} {tier}: {'VIOLATED' if new else 'holds'} {counts} {ev['wall_s']} s")
    return 1 if new else 0


def main(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        rule = importlib.import_module(f"analyzer.rules.{a.property.lower()}")
        return check(rule, a.property, tier, seed)
    except (AnalysisBroken, SyntaxError) as e:
        print(f"analysis broken ({a.property}): {type(e).__name__}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"analysis broken ({a.property})")
        return 2
