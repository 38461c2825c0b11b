"""C02: settings of argument objects are the same after the call."""
from ..core import Finding
from ..facts import DATA, SETTINGS, class_table, check_table, sweep_all, coverage

EXPLANATION = """Every public operation is interpreted abstractly once per kind of accepted object. On normal return the
symbolic content of every settings field (spectrum/spectrogram parameter dictionaries entry by entry, smoothing,
interpolation configuration, window, amplitude constraint, calibration flag, sampling rate, filter states and the
parameters of the other public classes) of every object reachable from an argument is compared with its content at
entry; a settings field that may differ is a violation. A value that is saved, replaced and put back compares equal."""
ASSUMPTIONS = ["fields not in the confirmed settings table are caches or derived results",
               "a call that raises is not examined: only normal returns are compared"]
MINIMUM = {"operations_analysed": 540, "known_fields_present": 150}

SELFCHECK = '''
from __future__ import annotations
import numpy as np
from .classes.signal import Signal
from .classes.filter import Filter
from .standard.enums import SpectrumMethod

def bad_param(sig: Signal):
    sig.spectrum_method = SpectrumMethod.FFT
    return sig.get_spectrum()[1]

def bad_one_path(sig: Signal, flag: bool):
    old = sig._spectrum_parameters.copy()
    sig.set_spectrum_parameters(method=SpectrumMethod.FFT)
    f, sp = sig.get_spectrum()
    if flag:
        return sp
    sig._spectrum_parameters = old
    return f

def bad_state(filt: Filter, sig: Signal):
    filt.initialize_zi(1)
    return filt.filter_signal(sig).time_data

def good_restore(sig: Signal):
    old = sig._spectrum_parameters
    sig._spectrum_parameters = old.copy()
    sig.set_spectrum_parameters(method=SpectrumMethod.FFT)
    f, sp = sig.get_spectrum()
    sig._spectrum_parameters = old
    return f

def good_copy(sig: Signal):
    s = sig.copy()
    s.spectrum_method = SpectrumMethod.FFT
    return s.get_spectrum()[1]
'''
SELF_BAD = {"bad_param", "bad_one_path", "bad_state"}


def judge(s, tab, allset):
    out = []
    for path, f, cls, kinds, loc, chain in s.changed:
        if path[0] == "self" or path[0].startswith("<"):
            continue
        inside = [p for p in path[1:] if p in allset]
        if inside:
            nm = inside[0] + (f if f.startswith("[") else "." + f)
        elif f in tab.get(cls, ()):
            nm = f
        else:
            continue
        out.append(Finding(f"{s.id}|{path[0]}|{nm}", loc,
                           f"{s.id} may return with setting {nm} of argument {'.'.join(path)} changed", chain))
    for path, how, loc, chain in s.mutations:
        if path[0] == "self" or path[0].startswith("<"):
            continue
        inside = [p for p in path[1:] if p in allset]
        if inside and how != "setitem":
            out.append(Finding(f"{s.id}|{path[0]}|{inside[0]}", loc,
                               f"{s.id} modifies setting {inside[0]} of argument {'.'.join(path)} in place ({how})",
                               chain))
    return out


def run(ctx):
    prog = ctx.prog
    present = check_table(prog)
    tab = class_table(prog, SETTINGS)
    allset = set().union(*SETTINGS.values()) - {"filters"}
    own, selfs = sweep_all(ctx)
    findings = [f for s in own for f in judge(s, tab, allset)]
    hits = {s.name for s in selfs if judge(s, tab, allset)}
    cov = coverage(own)
    cov["known_fields_present"] = present
    cov["fields_compared"] = sum(s.n_compared for s in own)
    cov["rule"] = "settings fields reachable from arguments have their entry value on every normal return"
    return findings, hits, cov
