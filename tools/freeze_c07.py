#!/usr/bin/env python3
"""Writes the confirmed facts about options (rules/c07_table.json) from the current tree. Run by hand after the entries have
been reviewed; never run by a check. Keys listed in known_findings.txt are left out."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from analyzer import core
from analyzer.rules import c07

ctx = core.Ctx("quick", "")
known = core.load_known("C07")
table = {"groups": {}, "enums": {}}


def keep(k, e):
    e["same"] = [x for x in e["same"] if f"same|{k}|{x[0]}|{x[1]}" not in known]
    e["neutral"] = [x for x in e["neutral"] if f"nothing|{k}|{x}" not in known]
    return e


for every in (False, True):
    groups, _, n = c07.gather(ctx, every)
    for e, alt, opt, values, mine in groups:
        if mine:
            k = c07.gkey(e, alt, opt)
            x = keep(k, c07.entry_of(values))
            # a field or setting without influence is not an option of the operation
            if c07.whole(x) and opt[0] in "[_":
                continue
            # groups of the thorough tier alone
            if every and k not in table["groups"]:
                x["thorough"] = True
            elif k in table["groups"] and not table["groups"][k].get("thorough"):
                x.pop("thorough", None)
            table["groups"][k] = x
for (q, alt), (e, d) in c07.enum_methods(ctx).items():
    k = f"{q}[{alt}]"
    x = keep(k, c07.entry_of([(m, y[1] if y is not None else None) for m, y in sorted(d.items())]))
    x["constants"] = {m: list(y[0]) for m, y in sorted(d.items()) if y is not None and y[0]}
    table["enums"][k] = x
json.dump(table, open(c07.TABLE, "w"), indent=0, sort_keys=True)
print(len(table["groups"]), "groups", len(table["enums"]), "methods of enumerations")
for k, x in table["groups"].items():
    if x["same"] or x["neutral"] or c07.OTHER in x["values"] and c07.OTHER not in x["rejected"]:
        print(k, "SAME" if c07.whole(x) else x["same"][:4], "NEUTRAL", x["neutral"], "REJ", x["rejected"])
