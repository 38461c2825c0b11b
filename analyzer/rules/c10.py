"""C10: results and constructed objects share no storage with their inputs."""
import re
from ..core import Finding
from ..facts import sweep_all, coverage

EXPLANATION = """Every public operation is interpreted abstractly once per kind of accepted object, with an alias-precise
heap (views, slices, transposes, asarray, containers, closures and callees are followed; copies are fresh). From every
package object that is returned (directly or inside a container) the heap is walked: reaching an array, list, dictionary
or object that belongs to an argument or to the receiver is a violation, and so is handing back an argument object itself.
After constructors, setters and methods the heap is walked from the receiver's fields in the same way. Methods documented
to return the receiver, to hand out members, and containers documented to hold their members are confirmed exceptions."""
ASSUMPTIONS = ["numpy and scipy functions outside the modelled list of view-returning functions return fresh storage",
               "plain arrays returned by getters are not results in the sense of this property"]
MINIMUM = {"operations_analysed": 600, "package_results_walked": 150}

# methods that return the receiver by documentation
FLUENT = re.compile(r"^(set_|add_|remove_|swap_|save_|show_|clear_|initialize_|fit_)")
FLUENT_NAMES = {("Spectrum", n) for n in ("apply_gain", "apply_octave_smoothing", "normalize", "resample", "trim",
                                          "warp")}
# operations that hand out members of the receiver
MEMBERS = {"__iter__", "remove_band", "remove_filter"}
# container field -> holds its members (package objects) by reference
HOLDS = {"_MultiBandSignal__bands", "_FilterBank__filters", "filters", "emitted_signal", "modulators", "modulator",
         "mics", "grid", "st_vec", "signal", "noise_signal", "calibration_signal_holder"}

SELFCHECK = '''
from __future__ import annotations
import numpy as np
from numpy.typing import NDArray
from .classes.signal import Signal
from .classes.spectrum import Spectrum

class _Box:
    def __init__(self, data: NDArray[np.float64]):
        self.data = data

def bad_view(sig: Signal):
    out = sig.copy()
    out._Signal__time_data = sig.time_data[:, ::-1]
    return out

def bad_identity(sig: Signal, n: int):
    if n == 0:
        return sig
    return sig.copy()

def bad_nested(sig: Signal):
    out = sig.copy()
    out._spectrum_parameters = sig._spectrum_parameters
    return 1.0, [out]

def bad_stored(data: NDArray[np.float64]):
    return _Box(np.atleast_2d(data).T)

def good_copy(sig: Signal, data: NDArray[np.float64]):
    out = sig.copy()
    out.time_data = data
    b = _Box(np.atleast_2d(data).copy())
    return out, b
'''
SELF_BAD = {"bad_view", "bad_identity", "bad_nested", "bad_stored"}


def judge(s, pk, exported):
    out = []
    if s.kind != "getter":
        for root, path, origin, typ in s.shares:
            if root not in pk:
                continue
            if path == () and origin == ("self",) and (FLUENT.match(s.name) or (s.cls, s.name) in FLUENT_NAMES):
                continue
            if s.name in MEMBERS and path == () and origin[0] == "self" and len(origin) > 1:
                continue
            # a container holds the members it was given, not those of another container
            if path and path[0] in HOLDS and typ in pk and not any(x in HOLDS for x in origin[1:]):
                continue
            what = "is" if path == () else "shares " + ".".join(path) + " with"
            out.append(Finding(f"{s.id}|ret|{root}|{'.'.join(path)}|{origin[0]}", s.loc,
                               f"{s.id} returns a {root} that {what} {'.'.join(origin)} of its caller ({typ})"))
    if s.name == "__init__" and s.cls is not None and s.cls not in exported:
        return out
    for dst, origin, typ in s.stored:
        if typ in pk and any(p in HOLDS for p in dst[1:]) and not any(x in HOLDS for x in origin[1:]):
            continue
        if dst[0] != "self":
            continue
        out.append(Finding(f"{s.id}|store|{'.'.join(dst[1:])}|{origin[0]}", s.loc,
                           f"{s.id} keeps the caller's {typ} {'.'.join(origin)} itself in {'.'.join(dst)}"))
    return out


def run(ctx):
    pk = {c.name for c in ctx.prog.classes.values()} | {"_Box"}
    exported = set()
    for m in ctx.prog.modules.values():
        if m.is_pkg and m.all is not None:
            exported |= {n for n, _ in m.all}
    own, selfs = sweep_all(ctx)
    findings = [f for s in own for f in judge(s, pk, exported)]
    hits = {s.name for s in selfs if judge(s, pk, exported)}
    cov = coverage(own)
    cov["package_results_walked"] = sum(1 for s in own if s.rettypes and any(t in pk for t in s.rettypes))
    cov["rule"] = "no storage of an argument or of the receiver is reachable from a returned or receiving package object"
    return findings, hits, cov
