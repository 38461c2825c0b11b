"""C06: preconditions of the public operations are enforced on every path."""
import ast
import json
import os
from ..core import Finding, VERIF
from ..facts import sweep_all, coverage
from ..guards import collect, lost, roots, show, implies
from ..program import AnalysisBroken

EXPLANATION = """Every public operation is interpreted abstractly for each accepted kind of object and for each selectable
option (and pairs of options that are rejected); a guard is a condition whose failure raises (assert, conditional raise,
however nested and in whichever helper). Guards are recorded as canonical comparisons of the caller's arguments together with
whether they were passed on every normal exit (must) or on some path (may). The confirmed table of preconditions of the
public API (rules/c06_table.json) lists what must hold: a condition that no longer holds at every normal exit, is weakened
(wider bound, other comparison, some instead of all elements) or whose last guard disappeared is a violation, as is a
rejected option or combination that can now reach a normal exit without any undecided guard on it. A condition stated in
another way (a new guard on the same arguments) is accepted."""
ASSUMPTIONS = ["guards outside the confirmed table (none known) are not required",
               "a guard replaced by a different new guard on the same arguments is taken as an equivalent formulation",
               "conditions enforced only by numpy/scipy internals are not counted as preconditions"]
MINIMUM = {"operations_analysed": 640, "conditions_checked": 2000, "rejected_variants_checked": 60}
TABLE = os.path.join(VERIF, "analyzer", "rules", "c06_table.json")

SELFCHECK = '''
from __future__ import annotations
import numpy as np
from numpy.typing import NDArray
from .classes.signal import Signal
from .standard.enums import Window

def ref_a(x: float, s: Signal, t: Signal, v: NDArray[np.float64], xs: list[float], flag: bool):
    assert 0 < x < 1, "range"
    assert s.sampling_rate_hz == t.sampling_rate_hz
    if np.any(v < 0):
        raise ValueError("negative")
    assert all([e > 2 for e in xs]), "elements"
    if flag:
        assert s.number_of_channels == 1
    return x * 2

def _same_rate(a, b):
    if a.sampling_rate_hz != b.sampling_rate_hz:
        raise ValueError("rates")

def good_a(x: float, s: Signal, t: Signal, v: NDArray[np.float64], xs: list[float], flag: bool):
    if not np.all(v >= 0):
        raise AssertionError("negative")
    _same_rate(t, s)
    for e in xs:
        if e <= 2:
            raise ValueError("elements")
    if x <= 0:
        raise ValueError("low")
    elif x >= 1:
        raise ValueError("high")
    if flag and s.number_of_channels != 1:
        raise ValueError("channels")
    y = x * 2
    return y

def good_b(x: float, s: Signal, t: Signal, v: NDArray[np.float64], xs: list[float], flag: bool):
    rate = s.sampling_rate_hz
    ok = 0 < x and x < 1 and rate == t.sampling_rate_hz
    if not ok:
        raise ValueError
    assert np.min(v) >= 0 and min(xs) > 2
    assert not flag or s.time_data.shape[1] == 1
    return x * 2

def bad_bound(x: float, s: Signal, t: Signal, v: NDArray[np.float64], xs: list[float], flag: bool):
    assert 0 <= x < 1, "range"
    assert s.sampling_rate_hz == t.sampling_rate_hz
    if np.any(v < 0):
        raise ValueError("negative")
    assert all([e > 2 for e in xs]), "elements"
    if flag:
        assert s.number_of_channels == 1
    return x * 2

def bad_upper(x: float, s: Signal, t: Signal, v: NDArray[np.float64], xs: list[float], flag: bool):
    assert 0 < x, "range"
    assert s.sampling_rate_hz == t.sampling_rate_hz
    if np.any(v < 0):
        raise ValueError("negative")
    assert all([e > 2 for e in xs]), "elements"
    if flag:
        assert s.number_of_channels == 1
    return x * 2

def bad_path(x: float, s: Signal, t: Signal, v: NDArray[np.float64], xs: list[float], flag: bool):
    assert 0 < x < 1, "range"
    if not flag:
        assert s.sampling_rate_hz == t.sampling_rate_hz
    if np.any(v < 0):
        raise ValueError("negative")
    assert all([e > 2 for e in xs]), "elements"
    if flag:
        assert s.number_of_channels == 1
    return x * 2

def bad_all(x: float, s: Signal, t: Signal, v: NDArray[np.float64], xs: list[float], flag: bool):
    assert 0 < x < 1, "range"
    assert s.sampling_rate_hz == t.sampling_rate_hz
    if np.all(v < 0):
        raise ValueError("negative")
    assert all([e > 2 for e in xs]), "elements"
    if flag:
        assert s.number_of_channels == 1
    return x * 2

def bad_any(x: float, s: Signal, t: Signal, v: NDArray[np.float64], xs: list[float], flag: bool):
    assert 0 < x < 1, "range"
    assert s.sampling_rate_hz == t.sampling_rate_hz
    if np.any(v < 0):
        raise ValueError("negative")
    assert any([e > 2 for e in xs]), "elements"
    if flag:
        assert s.number_of_channels == 1
    return x * 2

def bad_gone(x: float, s: Signal, t: Signal, v: NDArray[np.float64], xs: list[float], flag: bool):
    assert 0 < x < 1, "range"
    assert s.sampling_rate_hz == t.sampling_rate_hz
    if np.any(v < 0):
        raise ValueError("negative")
    assert all([e > 2 for e in xs]), "elements"
    return x * 2

def bad_early(x: float, s: Signal, t: Signal, v: NDArray[np.float64], xs: list[float], flag: bool):
    if len(v) == 0:
        return 0.0
    assert 0 < x < 1, "range"
    assert s.sampling_rate_hz == t.sampling_rate_hz
    if np.any(v < 0):
        raise ValueError("negative")
    assert all([e > 2 for e in xs]), "elements"
    if flag:
        assert s.number_of_channels == 1
    return x * 2

def ref_o(w: Window, x: float):
    if w == Window.Hann:
        raise ValueError("unsupported")
    return x

def good_o(w: Window, x: float):
    if w not in (Window.Hann,):
        return x
    raise NotImplementedError

def bad_o(w: Window, x: float):
    return x + (1.0 if w == Window.Hann else 0.0)
'''
SELF_BAD = {"bad_bound", "bad_upper", "bad_path", "bad_all", "bad_any", "bad_gone", "bad_early", "bad_o"}


def rejected_alternatives(prog, entry, keys):
    """pairs of options of the table, as restrictions"""
    from ..driver import alternatives, option_alternatives, alt_name
    if not keys:
        return []
    base = alternatives(prog, entry, ("ImpulseResponse",))
    return [r for r in option_alternatives(prog, entry, base, pairwise=True, cap=4000) if alt_name(r) in keys]


def gather(ctx, options, pairs=None):
    own, selfs = sweep_all(ctx, extra=collect, options=options, opts={"guards": True}, selfoptions=True,
                           more=(lambda prog, e: rejected_alternatives(prog, e, pairs.get(e.id))) if pairs else None)
    return own, selfs


def key(s):
    return f"{s.id}[{s.alt}]"


def option_names(alt):
    return {x.split("=")[0] for x in alt.split(",") if x}


def load():
    with open(TABLE, encoding="utf-8") as fh:
        t = json.load(fh)
    syms = [ast.literal_eval(x) for x in t["conditions"]]
    return ({k: [syms[i] for i in v] for k, v in t["must"].items()},
            {k: [syms[i] for i in v] for k, v in t["may"].items()}, set(t["rejected"]),
            {k: {syms[i] for i in v} for k, v in t["seen"].items()})


def judge(s, must, may, rejected, k, ident, before=None):
    out = []
    m, y, und = s.extra
    if m is None:
        return out
    if k in rejected:
        if not (und & option_names(s.alt)):
            out.append(Finding(f"accepted|{k}".replace(" ", ""), s.loc,
                               f"{ident} no longer rejects {s.alt}"))
        return out
    req, opt = must.get(k, ()), [w for w in may.get(k, ()) if w not in must.get(k, ())]
    before = set(req) | set(opt) | (before or set())
    seen = set()
    for w, weak in lost(req, m, before):
        seen.add(w)
        out.append(Finding(f"must|{ident}|{show(w)}".replace(" ", ""), s.loc,
                           f"{ident} can return without {show(w)} having been enforced"
                           + (f" (only {show(weak)})" if weak else "") + (f" for {s.alt}" if s.alt else "")))
    for w, weak in lost(opt, set(y) | m, before):
        if w not in seen:
            out.append(Finding(f"may|{ident}|{show(w)}".replace(" ", ""), s.loc,
                               f"{ident} no longer enforces {show(w)} on any path"
                               + (f" (only {show(weak)})" if weak else "") + (f" for {s.alt}" if s.alt else "")))
    return out


def run(ctx):
    must, may, rejected, known = load()
    pairs = {}
    for k in rejected:
        i, a = k[:-1].split("[", 1)
        pairs.setdefault(i, set()).add(a)
    own, selfs = gather(ctx, "single", pairs)
    findings, nc, nm, nr = [], 0, 0, 0
    present = {key(s) for s in own}
    entries_now = {s.id for s in own}
    gone = sorted({k[:-1].split("[", 1)[0] for k in must} - entries_now)
    missing = [k for k in must if k not in present]
    for e in gone[:10]:
        ctx.notes.append(e)
        print(f"note: operation of the table not found: {e}")
    if len(gone) > 0.03 * len(entries_now) or len(missing) > 0.05 * len(must):
        raise AnalysisBroken(f"{len(gone)} operations / {len(missing)} variants of the confirmed table not found")
    for s in own:
        k = key(s)
        findings += judge(s, must, may, rejected, k, s.id, known.get(s.id))
        nc += len(must.get(k, ()))
        nm += len(may.get(k, ()))
        nr += k in rejected
    # self-check: every variant of the reference functions is the table
    smust, smay, srej, hits = {}, {}, set(), set()
    groups = {"a": "ref_a", "o": "ref_o"}
    by = {}
    for s in selfs:
        by.setdefault(s.name, []).append(s)
    for g, r in groups.items():
        for s in by.get(r, ()):
            m, y, _ = s.extra
            if m is None:
                srej.add((g, s.alt))
            else:
                smust[(g, s.alt)], smay[(g, s.alt)] = m, y
    for name, ss in by.items():
        if name.startswith(("ref_", "_")):
            continue
        g = "o" if name.endswith("_o") else "a"
        for s in ss:
            if judge(s, smust, smay, srej, (g, s.alt), name):
                hits.add(name)
    cov = coverage(own)
    cov["conditions_checked"] = nc
    cov["conditions_on_some_path_checked"] = nm
    cov["rejected_variants_checked"] = nr
    cov["distinct_guard_conditions_seen"] = len({c for s in own for c in s.extra[1]})
    return findings, hits, cov
