#!/usr/bin/env python3
"""Writes the confirmed table of preconditions (rules/c06_table.json) from the current tree. Run by hand after the
listed conditions have been reviewed; never run by a check."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from analyzer import core
from analyzer.rules import c06
from analyzer.facts import sweep_all
from analyzer.guards import collect

ctx = core.Ctx("thorough", "")
own, _ = sweep_all(ctx, extra=collect, options="pairs", opts={"guards": True}, selfcheck=False)
syms = {}
def num(s):
    return syms.setdefault(repr(s), len(syms))
single, _ = sweep_all(ctx, extra=collect, options="single", opts={"guards": True}, selfcheck=False)
must, may, rej = {}, {}, []
for s in single:
    m, y, und = s.extra
    k = c06.key(s)
    if m is None:
        if s.option:
            rej.append(k)
        continue
    mm = sorted(num(x) for x in sorted(m, key=repr) if y.get(x))
    yy = sorted(num(x) for x in sorted(y, key=repr) if y[x] and x not in m)
    if mm or yy:
        must[k], may[k] = mm, yy
singles_rej = {(k[:-1].split("[", 1)[0], frozenset(k[:-1].split("[", 1)[1].split(","))) for k in rej}
for s in own:
    if s.extra[0] is None and s.option:
        k = c06.key(s)
        if k not in rej:
            parts = frozenset(s.alt.split(","))
            if not any(i == s.id and p <= parts for i, p in singles_rej):
                rej.append(k)
seen = {}
for s in single:
    m, y, _ = s.extra
    seen.setdefault(s.id, set()).update(num(x) for x in sorted((m or set()) | set(y), key=repr))
json.dump({"conditions": list(syms), "seen": {k: sorted(v) for k, v in seen.items() if v}, "must": must, "may": may, "rejected": sorted(rej)},
          open(c06.TABLE, "w"), indent=0)
print(len(syms), "conditions", sum(map(len, must.values())), "must", sum(map(len, may.values())), "may", len(rej), "rejected")
