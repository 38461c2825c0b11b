#!/usr/bin/env python3
"""Writes the confirmed facts about results (rules/c09_table.json) from the current tree. Run by hand after review; never
run by a check. Keys listed in known_findings.txt are not affected: they are reported by a rule of their own."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from analyzer import core
from analyzer.rules import c09

ctx = core.Ctx("quick", "")
own, _ = c09.gather(ctx)
res = {}
for s in own:
    if s.extra:
        res[c09.key(s)] = {p: {"classes": r["classes"], "carry": {k: {f: c for f, c in x.items() if c != "no"}
                                                                   for k, x in r["carry"].items()}}
                           for p, r in s.extra.items()}
bad, n = c09.loops(ctx.prog, ctx.prog.functions)
for f, line, what in bad:
    print("LOOP", f.qualname, line, what)
table = {"results": res, "loops": sorted({(f.qualname, what) for f, _, what in bad})}
json.dump(table, open(c09.TABLE, "w"), indent=0, sort_keys=True)
print(len(res), "variants", n, "loops")
