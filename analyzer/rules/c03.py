"""C03: reading, plotting, exporting and converting leave the object unchanged."""
import re
from ..core import Finding
from ..facts import DATA, SETTINGS, class_table, check_table, sweep_all, coverage

EXPLANATION = """Every getter property and every public method that by its documentation reads, plots, prints, saves,
copies, analyses or converts is interpreted abstractly on a symbolic receiver (each concrete class, each accepted kind of
argument). On every normal return the data and settings fields of the receiver, and of the objects it holds, are compared
with their symbolic entry content, and no in-place operation may reach them. Cached and derived results (spectra, time
vectors, update flags, array geometry) are not data. A field that is saved, replaced and put back compares equal."""
ASSUMPTIONS = ["fields outside the confirmed data and settings tables are caches or derived results",
               "a call that raises is not examined: only normal returns are compared"]
MINIMUM = {"operations_analysed": 250, "known_fields_present": 150}

READ = re.compile(r"^(get_|plot_|show_|save_|copy|to_|from_|is_|has_|check_if_|find_|reconstruct_|he_to_hz$|hz_to_he$"
                  r"|calibrate_signal$|collapse$|sum_channels$|apply$|filter_and_resample_signal$|filter_multiband_signal$"
                  r"|__len__$|__str__$|__iter__$)")
# receivers whose method of this name changes state by documentation
NOT_READ = {("FilterBank", "filter_multiband_signal"), ("GammaToneFilterBank", "filter_multiband_signal"),
            ("QMFCrossover", "filter_multiband_signal"), ("LRFilterBank", "filter_multiband_signal")}
ALSO_READ = {("KautzFilter", "filter_signal"), ("ParallelFilter", "filter_signal"), ("WarpedFIR", "filter_signal"),
             ("WarpedIIR", "filter_signal")}
# in-place fluent operations are not readers although their name matches
NOT_NAMES = {"apply_octave_smoothing", "apply_gain"}

SELFCHECK = '''
from __future__ import annotations
import numpy as np
from .classes.signal import Signal
from .standard.enums import SpectrumMethod


class _Holder:
    def __init__(self, sig: Signal):
        self.calibration_signal: Signal = sig

def bad_plot(calibrated: Signal):
    calibrated.set_spectrum_parameters(method=SpectrumMethod.FFT)
    return calibrated.plot_magnitude()

def bad_export(calibrated: Signal):
    td = calibrated.time_data
    td /= 2
    return td.copy()

def good_plot(calibrated: Signal):
    prior = calibrated._spectrum_parameters
    calibrated._spectrum_parameters = prior.copy()
    calibrated.set_spectrum_parameters(method=SpectrumMethod.FFT)
    out = calibrated.plot_magnitude()
    calibrated._spectrum_parameters = prior
    return out

def good_read(calibrated: Signal):
    return calibrated.time_data.copy() / 2
'''
SELF_BAD = {"bad_plot", "bad_export"}


def is_reader(e):
    if e.cls is None or e.fi.kind in ("setter",):
        return False
    if e.fi.kind == "getter":
        return True
    if e.fi.kind != "method":
        return False
    k = (e.cls.name, e.fi.name)
    if k in NOT_READ or e.fi.name in NOT_NAMES:
        return False
    return bool(READ.match(e.fi.name)) or k in ALSO_READ


def judge(s, tab, allf, root="self"):
    out = []
    for path, how, loc, chain in s.mutations:
        if path[0] != root:
            continue
        inside = [p for p in path[1:] if p in allf]
        if inside:
            out.append(Finding(f"{s.id}|{inside[0]}", loc,
                               f"{s.id} modifies {'.'.join(path)} of the object it reads in place ({how})", chain))
    for path, f, cls, kinds, loc, chain in s.changed:
        if path[0] != root:
            continue
        # the innermost package object that owns the changed content
        if cls in tab:
            owner_field = f if f in tab[cls] else None
        else:
            inside = [p for p in path[1:] if p in allf]
            owner_field = inside[-1] if inside else None
        if owner_field:
            out.append(Finding(f"{s.id}|{'.'.join(path[1:] + (f,))}", loc,
                               f"{s.id} may return with {'.'.join(path)}.{f} changed", chain))
    return out


def run(ctx):
    prog = ctx.prog
    present = check_table(prog)
    tab = class_table(prog, DATA)
    for k, v in class_table(prog, SETTINGS).items():
        tab[k] = tab.get(k, set()) | v
    tab["MultichannelData"] = set()
    allf = set().union(*DATA.values(), *SETTINGS.values())
    own, selfs = sweep_all(ctx, select=is_reader)
    findings = [f for s in own for f in judge(s, tab, allf)]
    hits = {s.name for s in selfs if judge(s, tab, allf, "calibrated")}
    cov = coverage(own)
    cov["known_fields_present"] = present
    cov["receiver_fields_written_then_compared"] = sum(s.n_compared for s in own)
    cov["rule"] = "data and settings reachable from the receiver have their entry content on every normal return"
    return findings, hits, cov
