"""C14: physical units are converted consistently."""
import ast

from ..core import Finding
from ..units import Units

EXPLANATION = """Abstract interpretation with units: every expression of every function gets a unit - powers of seconds and
metres with a decimal scale, a level in dB (also divided by 10 or by 20), amplitude- or power-like samples, amplitude or
power gains, linear values, degrees, radians - from the suffixes of parameters, fields, variables and dictionary keys, from
the units promised by the documentation, from the axis labels of plots and from library functions, and through arithmetic,
branches, loops and calls (a called function is interpreted again with the units of its arguments and with flags and
strings that are constants). A violation is a place where two known units disagree: an argument, field, variable, entry or
result whose name or documentation promises another unit; terms that are added, compared, clipped, interpolated or stored in
one array; an index, length or range bound that is not a number of samples; an exponential or logarithm with the wrong one of
the factors 10 and 20, samples scaled by a level, by percent or by a gain of the other convention; an angle function of
something that is no angle; a plotted quantity that differs from its axis label. Unknown units never lead to a report."""
ASSUMPTIONS = ["names and documentation state the intended units", "where no unit is known for one side of an operation "
               "(constants times a sampling rate, values from untyped containers), nothing is decided"]
MINIMUM = {"argument_sites": 450, "sum_and_comparison_sites": 2500, "index_sites": 2000, "sites_with_known_unit": 3000,
           "functions_interpreted": 650, "exponential_sites": 110}

SELFCHECK = '''
from __future__ import annotations
import numpy as np
from .helpers.gain_and_level import from_db, to_db
from .plots import general_plot
from .classes.signal import Signal

def _fade(x, length_s: float, sampling_rate_hz: int):
    return x[: int(length_s * sampling_rate_hz)]

def bad_argument(sig: Signal, fade_ms: float):
    return _fade(sig.time_data, fade_ms, sig.sampling_rate_hz)

def bad_sum(start_s: float, sampling_rate_hz: int, n_samples: int):
    return n_samples + start_s

def bad_compare(duration_s: float, limit_ms: float):
    return duration_s > limit_ms

def bad_index(time_data, start_s: float):
    return time_data[int(start_s):]

def bad_index_divided(time_data, start_s: float, sampling_rate_hz: int):
    return time_data[: int(start_s / sampling_rate_hz)]

def bad_decibel(time_data, sampling_rate_hz):
    power = np.mean(time_data ** 2, axis=0)
    return 20 * np.log10(power)

def bad_gain(time_data, gain_db: float):
    return time_data * 10 ** (gain_db / 10)

def bad_gain_flag(time_data, gain_db: float):
    return time_data * from_db(gain_db, False)

def bad_gain_level(time_data, gain_db: float):
    return time_data * gain_db

def bad_percent(time_data, mix_percent: float):
    return time_data * mix_percent

def bad_angle(angle_degrees: float):
    return np.sin(angle_degrees)

def bad_phase(frequency_hz: float, length_samples: int):
    return np.sin(2 * np.pi * frequency_hz * np.arange(length_samples))

def bad_name(length_samples: int, sampling_rate_hz: int):
    length_ms = length_samples / sampling_rate_hz
    return length_ms

def get_bad_result_ms(length_samples: int, sampling_rate_hz: int):
    return length_samples / sampling_rate_hz

def bad_label(time_data, sampling_rate_hz: int):
    t = np.arange(len(time_data)) / sampling_rate_hz
    return general_plot(t * 1e3, time_data, xlabel="Time / s")

def bad_entry(length_samples: int):
    return dict(a=1) | {"length_s": length_samples}

class _Store:
    def __init__(self, attack_time_ms: float, sampling_rate_hz: int):
        self.attack_time_s = attack_time_ms * 1e3

def good_chain(sig: Signal, fade_ms: float, gain_db: float, angle_degrees: float):
    fs = sig.sampling_rate_hz
    n = int(fade_ms * 1e-3 * fs + 0.5)
    td = _fade(sig.time_data, fade_ms / 1000, fs)[:n] * 10 ** (gain_db / 20)
    td = td * from_db(gain_db, True)
    level_db = to_db(np.mean(td ** 2, axis=0), False) + 10 * np.log10(np.mean(td ** 2, axis=0))
    t = np.arange(len(td)) / fs
    mod = np.sin(2 * np.pi * 5.0 * t + np.deg2rad(angle_degrees)) * 3
    if n > len(td) or t[-1] > fade_ms / 1e3:
        return level_db - gain_db
    f = np.fft.rfftfreq(len(td), 1 / fs)
    return {"length_s": len(td) / fs, "a": mod, "f_hz": f[f < fs / 2], "other_db": level_db}

def good_plot(time_data, sampling_rate_hz: int):
    t = np.arange(len(time_data)) / sampling_rate_hz
    return general_plot(t * 1e3, 20 * np.log10(np.abs(time_data)), xlabel="Time / ms", ylabel="Level / dB")
'''
SELF_BAD = {"bad_argument", "bad_sum", "bad_compare", "bad_index", "bad_index_divided", "bad_decibel", "bad_gain",
            "bad_gain_flag", "bad_gain_level", "bad_percent", "bad_angle", "bad_phase", "bad_name", "get_bad_result_ms",
            "bad_label", "bad_entry", "__init__"}


def run(ctx):
    units = Units(ctx.prog, ctx.thorough)
    found = units.run()
    selfmod = ctx.selfmod
    hits, findings = set(), []
    for f in found:
        if f.fi.module is selfmod:
            hits.add(f.fi.name)
            continue
        line = getattr(f.node, "lineno", f.fi.node.lineno)
        key = f"{f.rule}|{f.fi.qualname.replace('dsptoolbox.', '')}|{ast.unparse(f.node)[:90]}"
        findings.append(Finding(key, f"{f.fi.module.relpath}:{line}", f"in {f.fi.name}: {f.msg}", f.chain))
    own = [f for f in units.cov_fns if f.module is not selfmod]
    cov = {"functions_interpreted": len(own), "contexts_interpreted": len(units.memo),
           "argument_sites": len(units.sites["calls"]), "sum_and_comparison_sites": len(units.sites["sums"]),
           "index_sites": len(units.sites["indices"]), "store_and_result_sites": len(units.sites["stores"]),
           "exponential_sites": len(units.sites["exponentials"]), "library_call_sites": len(units.sites["external"]),
           "sites_with_known_unit": len(units.known), "fields_with_inferred_unit": sum(u is not None for u in units.fields.values()),
           "rule": "no two known units disagree at an argument, store, sum, comparison, index, gain, exponential or label"}
    return findings, hits, cov
