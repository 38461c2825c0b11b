#!/usr/bin/env python3
"""Writes the confirmed table of parameters without influence (rules/c08_table.json) from the current tree. Run by hand
after the entries have been reviewed; never run by a check. Keys listed in known_findings.txt are left out."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from analyzer import core
from analyzer.rules import c08

ctx = core.Ctx("quick", "")
own, _ = c08.gather(ctx)
known = core.load_known("C08")
variants, plain, ops = {}, [], {}
for s in own:
    k = c08.key(s)
    if not s.option:
        plain.append(k)
    if s.extra is None:
        continue
    ops.setdefault(s.id, s.extra["names"])
    e = s.extra
    v = {}
    for kind in ("none", "guard"):
        x = [p for p in c08.relevant(s, e[kind]) if f"{kind}|{k}|{p}" not in known]
        if x:
            v[kind] = x
    sl = {str(i): c08.relevant(s, ps) for i, ps in e["slots"].items() if c08.relevant(s, ps)}
    if sl:
        v["slots"] = sl
    if e["nslots"]:
        v["nslots"] = e["nslots"]
    if e["settings"]:
        v["settings"] = e["settings"]
    if not s.option:
        x = {g: {q: ([p for p in ps[0] if p in e["names"] or p.startswith("self.")], ps[2]) for q, ps in qs.items()} for g, qs in e["passed"].items()}
        x = {g: {q: ps for q, ps in qs.items() if ps[0]} for g, qs in x.items()}
        x = {g: qs for g, qs in x.items() if qs}
        if x:
            v["passed"] = x
    variants[k] = v
table = {"operations": ops, "plain": sorted(plain), "variants": variants, "pairs": {}}
more, _ = c08.gather(ctx, True)
for s in more:
    k = c08.key(s)
    if k in variants or s.extra is None:
        continue
    v = {}
    allowed = {p for q in c08.pairs_of(s, table) for kind in ("none", "guard") for p in variants[q].get(kind, ())}
    for kind in ("none", "guard"):
        x = [p for p in c08.relevant(s, s.extra[kind]) if p not in allowed]
        if x:
            v[kind] = x
    if v:
        table["pairs"][k] = v
        print("pair", k, v)
dead, n = c08.dead_fields(ctx.prog)
fields = sorted({(f.cls.name, a) for f, a, _ in dead if f"field|{f.cls.name}|{a}" not in known})
table["fields"] = fields
json.dump(table, open(c08.TABLE, "w"), indent=0, sort_keys=True)
print(len(ops), "operations", len(variants), "variants")
for k in sorted(variants):
    for kind in ("none", "guard"):
        if kind in variants[k]:
            print(kind, k, *variants[k][kind])
print("fields", fields)
