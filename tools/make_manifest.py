#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule modules that exist and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("interprocedural alias-sensitive effect analysis (abstract interpretation of the AST)",
         "Every public operation x accepted kind of object is interpreted; in-place operations are traced through views, containers, closures and callees. May miss in-place effects inside numpy/scipy functions that are not modelled."),
 "C02": ("interprocedural heap comparison at normal exits (abstract interpretation of the AST)",
         "Symbolic content of each settings field of each argument object compared at every normal return; save/replace/restore compares equal. Calls that raise are not examined."),
 "C03": ("interprocedural heap comparison at normal exits of read-only methods (abstract interpretation)",
         "Same comparison, for the receiver of the methods that are documented as reading, plotting, exporting or converting (name patterns plus a confirmed list of exclusions)."),
 "C04": ("typestate analysis: stale cache fields at public exits (abstract interpretation)",
         "Every write to an input of a cached quantity must be followed by its invalidation before any public exit; the inputs are inferred from the cache-filling getters. Direct assignment of attributes from outside is out of scope."),
 "C05": ("must-fact dataflow: sampling-rate equality facts at normal exits",
         "For each confirmed operation that combines objects, equality of the sampling rates must be established on every normal path (assert/raise guards, wherever they are placed); loose matching of the operands."),
 "C06": ("must-fact dataflow: argument guards at normal exits",
         "Each confirmed precondition of the public API must be established on every normal path, whichever helper enforces it; compared as canonical symbolic comparisons."),
 "C07": ("path-sensitive per-option interpretation of dispatch over enum members",
         "Each option of each public parameter is interpreted separately: accepted/rejected status and the set of options that cannot be told apart are compared with the confirmed table."),
 "C08": ("interprocedural taint (dependence) analysis from parameters to results and sinks",
         "Each public parameter must reach the return value, the state of the receiver or an output sink, per accepted kind of object; dependence is a may-analysis, so a weaker influence than documented is not seen."),
 "C09": ("interprocedural provenance of returned objects' class, sampling rate and settings",
         "Per kind of accepted input object, class, sampling-rate origin and settings origin of the result are compared with the confirmed table; loops over bands must use the loop band."),
 "C10": ("interprocedural escape/alias analysis of results and stored arguments",
         "Reports argument storage reachable from package objects that are returned or from receiver fields; confirmed containers hold their members by reference by design."),
 "C11": ("index-dependence analysis of per-stream state (abstract interpretation)",
         "State touched while processing must be selected by the channel argument, and every such field must be re-initialised by reset and channel-count methods."),
 "C12": ("dataflow of filter states through block-wise filtering",
         "State given to the filtering primitive must be the stored one of the same channel, and the stored one must be the primitive's final state."),
 "C13": ("definite assignment, call-signature and attribute resolution over the interprocedural call graph",
         "Reports only errors that are certain on some reachable path given the analysed kinds; data-dependent failures inside numpy are out of scope."),
 "C14": ("unit (qualifier) inference from documented suffixes through arithmetic and calls",
         "Flow-based unit qualifiers seeded from parameter/attribute suffixes and conversion helpers; unknown units are never reported."),
 "C15": ("effect analysis: global writes, shared option members, defaults and random sources in the call graph",
         "Reports writes to module-, class- or enum-level state, mutable defaults, library configuration calls and random sources outside the confirmed entry points."),
}
NA = "Quantifies over floating-point values produced by numpy/scipy algorithms; no sound static argument over the source in reach bounds them, so it is left to numerical testing."
EXTRA_NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH and os.path.exists(os.path.join(V, "analyzer", "rules", i.lower() + ".py")):
        t, n = TECH[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
                       "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": t, "level": "other", "level_note": n})
    elif i.startswith("N"):
        na.append({"property": i, "reason": NA})
    else:
        na.append({"property": i, "reason": EXTRA_NA.get(i, "Check under construction; not claimed yet.")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
