"""C05: objects with different sampling rates are never silently combined."""
import itertools
from ..core import Finding
from ..driver import alternatives, option_values, param_types
from ..facts import sweep_all, coverage

EXPLANATION = """Every public operation that receives two or more objects with a sampling rate (arguments, the receiver, the
elements of a list, the bands of a multi-band signal) is interpreted abstractly for each accepted combination of kinds, in
both modes of the containers (one common rate, one rate per band). For every pair of such objects an equality between values
that derive from the rates of both must have been enforced (assert, conditional raise, in whichever helper) on every path
that ends normally; for a list, between its elements. An operation that takes over the rate of the argument into an object
that is replaced as a whole counts as consistent only where listed."""
ASSUMPTIONS = ["containers already hold at least one element when another one is added to them",
               "a comparison that involves the rates of both objects relates them correctly (C06 checks the form of the guard)"]
MINIMUM = {"operations_analysed": 30, "pairs_checked": 150, "rejected_variants_checked": 20}

# documented exceptions, as (function, pair): reason
EXEMPT = {
    ("spectral_difference", "input_1", "input_2"): "spectra over hertz are interpolated to one frequency vector",
    ("KautzFilter.fit_coefficients_to_ir", "ir", "self"): "the filter takes over the rate of the IR it is fitted to",
    ("KautzFilter.fit_poles_and_coefficients_to_ir", "ir", "self"): "the filter takes over the rate of the IR it is fitted to",
    ("CalibrationData.calibrate_signal", "self", "signal"): "only a level is transferred",
    ("bands=", "new_bands", "self"): "all bands are replaced",
    ("filters=", "new_filters", "self"): "all filters are replaced",
    ("harmonic_distortion_analysis", "ir", "ir"): "the list is the output of one harmonics_from_chirp_ir call",
}
# containers with one rate per band accept elements with another rate
BUILDERS = {"add_band", "bands=", "add_filter", "filters=", "append_signals", "append_filterbanks", "__init__"}
# enforced in each of several branches that together cover every accepted call
# with one rate per band (or filter), operations that combine the bands reject
REJECT = {("pad_trim", "signal=MultiBandSignal"), ("envelope", "signal=MultiBandSignal"),
          ("dither", "noise_shaping_filterbank=FilterBank"), ("filter_to_ir", "fir=FilterBank"),
          ("MultiBandSignal.collapse", ""),
          (":FilterBank.filter_signal", "mode=Sequential"), (":FilterBank.filter_signal", "mode=Summed"),
          (":FilterBank.get_ir", "mode=Sequential"), (":FilterBank.get_ir", "mode=Summed"),
          ("GammaToneFilterBank.filter_signal", "mode=Sequential"), ("GammaToneFilterBank.filter_signal", "mode=Summed"),
          ("GammaToneFilterBank.get_ir", "mode=Sequential"), ("GammaToneFilterBank.get_ir", "mode=Summed"),
          ("QMFCrossover.get_ir", "mode=Sequential"), ("QMFCrossover.get_ir", "mode=Summed")}
BRANCHES = {("QMFCrossover.reconstruct_signal", "self", "signal"): 2,
            ("filter_and_resample_signal", "self", "signal"): 2}

SELFCHECK = '''
from __future__ import annotations
from .classes.signal import Signal
from .classes.filter import Filter
from .classes.multibandsignal import MultiBandSignal

def bad_none(x: Signal, y: Signal):
    return x.time_data + y.time_data

def bad_path(x: Signal, y: Signal, flag: bool):
    if flag:
        assert x.sampling_rate_hz == y.sampling_rate_hz
    return x.time_data + y.time_data

def bad_other(x: Signal, y: Signal):
    assert x.length_samples == y.length_samples and x.sampling_rate_hz == x.sampling_rate_hz
    return x.time_data + y.time_data

def bad_list(xs: list[Signal]):
    assert all([x.number_of_channels == xs[0].number_of_channels for x in xs])
    return xs[0].time_data + xs[1].time_data

def bad_part(xs: list[Signal]):
    assert all([x.sampling_rate_hz == xs[0].sampling_rate_hz for x in xs[:2]])
    return xs[0].time_data + xs[1].time_data

def bad_part_loop(xs: list[Signal]):
    for x in xs[1:-1]:
        assert x.sampling_rate_hz == xs[0].sampling_rate_hz
    return xs[0].time_data + xs[1].time_data

def good_rest(xs: list[Signal]):
    for x in xs[1:]:
        assert x.sampling_rate_hz == xs[0].sampling_rate_hz
    return xs[0].time_data + xs[1].time_data

def bad_optional(x: Signal, f: Filter | None):
    if f is not None:
        return f.ba[0] * x.time_data
    return x.time_data

def bad_multi(m: MultiBandSignal, x: Signal):
    if m.same_sampling_rate:
        assert m.sampling_rate_hz == x.sampling_rate_hz
    return m.bands[0].time_data + x.time_data

def _check(a, b):
    if a.sampling_rate_hz != b.sampling_rate_hz:
        raise ValueError("rates")

def good_a(x: Signal, y: Signal, z: Signal):
    _check(x, y)
    rate = y.sampling_rate_hz
    assert z.sampling_rate_hz == rate
    return x.time_data + y.time_data + z.time_data

def good_list(xs: list[Signal]):
    first = xs[0]
    for x in xs[1:]:
        if x.sampling_rate_hz == first.sampling_rate_hz:
            continue
        raise ValueError("rates")
    return xs[0].time_data + xs[1].time_data
'''
SELF_BAD = {"bad_part", "bad_part_loop", "bad_none", "bad_path", "bad_other", "bad_list", "bad_optional", "bad_multi"}


# fields with the objects of a container (a rate read from them names the field)
HOLDERS = {"_MultiBandSignal__bands", "_FilterBank__filters", "_BaseCrossover__filters_synthesis"}


def is_rate(f):
    return "sampling_rate" in f and "same" not in f


_RATES = {}


def has_rate(prog, cls, depth=2):
    """the object, or an object it holds, has a sampling rate"""
    k = (cls.qualname, depth)
    if k not in _RATES:
        fs = prog.fields(cls)
        _RATES[k] = any(is_rate(f) for f in fs) or (depth > 0 and any(
            a[0] == "inst" and has_rate(prog, a[1], depth - 1) for t in fs.values() for a in t or ()))
    return _RATES[k]


def carriers(prog, entry, res):
    """-> (single arguments, lists of objects)"""
    ip = res.ip
    single, lists = set(), set()
    for n, v in res.args.items():
        if entry.fi.name == "__init__" and n == entry.fi.params[0].name:
            continue
        for o in v.objs:
            ob = ip.objs[o]
            if ob.kind == "inst" and has_rate(prog, ob.cls):
                single.add(n)
            elif ob.kind in ("list", "tuple", "dict") and res.state is not None:
                e = ip.init_value(o, "[]")
                if any(ip.kind(x) == "inst" and has_rate(prog, ip.objs[x].cls) for x in e.objs):
                    lists.add(n)
    return single, lists


def mentions(s, name):
    """the rate of parameter `name` takes part in the value"""
    if isinstance(s, tuple):
        if len(s) == 2 and s[0] == "p":
            return s[1][0] == name and is_rate(s[1][-1])
        if len(s) == 3 and s[0] == "D":
            return any(t.split(".")[0] == name and (is_rate(t) or is_rate(s[2]) and t.split(".")[-1] in HOLDERS)
                       for t in s[1])
        return any(mentions(x, name) for x in s)
    return False


def relates(s, a, b):
    if s[0] == "and":
        return any(relates(x, a, b) for x in s[1:])
    if s[0] != "cmp" or s[1] not in ("==", "is"):
        return False
    return mentions(s[2], a) and mentions(s[3], b) or mentions(s[2], b) and mentions(s[3], a)


def extra(prog, entry, res):
    if res.state is None:
        return None
    single, lists = carriers(prog, entry, res)
    setter = entry.fi.kind == "setter" and entry.fi.name == "same_sampling_rate"
    if len(single | lists) + len(lists) < 2 and not setter:
        return None
    must = {f[1] for f in res.state.facts if f[0] == "g"}
    may = {k[-1] for k in res.ip.guards}
    pairs = [*itertools.combinations(sorted(single | lists), 2), *[(x, x) for x in sorted(lists)]]
    if setter:
        pairs = [("self", "self")]
    # equality is transitive
    rel = {(a, b) for a, b in pairs if any(s[-1] not in ("filtered", "part") and relates(s, a, b) for s in must)}
    grow = True
    while grow:
        grow = False
        for a, b in pairs:
            if (a, b) not in rel and a != b and any(
                    (tuple(sorted((a, c))) in rel and tuple(sorted((c, b))) in rel) for c in single | lists):
                rel.add((a, b))
                grow = True
    return [(a, b, (a, b) in rel, sum(1 for s in may if relates(s, a, b))) for a, b in pairs]


def given(prog, e):
    """optional objects are given"""
    out = []
    for r in alternatives(prog, e, ("ImpulseResponse",)):
        r = dict(r or {})
        for i, p in enumerate(e.fi.params):
            if i == 0 and e.fi.kind in ("method", "getter", "setter", "classmethod") or p.kind in ("vararg", "kwarg"):
                continue
            t = r.get(p.name) or param_types(prog, e.fi, p, e.cls)
            if ("none",) in t and any(a[0] in ("inst", "list") for a in t):
                t = frozenset(a for a in t if a != ("none",))
            # a list of objects and something else: the list
            if any(a[0] == "list" for a in t) and not any(a[0] == "inst" for a in t):
                t = frozenset(a for a in t if a[0] in ("list", "vartuple", "tuple")) or t
            if e.fi.name == "same_sampling_rate":
                t = frozenset([("const", True)])
            r[p.name] = t
        out.append(r)
    return out


def exempt(name, a, b):
    return any(name.endswith(k[0]) and (a, b) == k[1:] for k in EXEMPT)


def options(prog, e):
    """choices of the operations that reject bands with their own rates"""
    want = [k for k in REJECT if e.id.endswith(k[0])]
    out = []
    for r in given(prog, e) if want else ():
        for n, alts in option_values(prog, e):
            for a in alts:
                if n == "mode":
                    out.append(dict(r, **{n: a}))
    return out


def must_reject(s):
    return any(s.id.endswith(f) and set(x for x in a.split(",") if x) <= set(s.alt.split(",")) for f, a in REJECT)


def judge(s, mode):
    out = []
    if not mode and s.normal and must_reject(s):
        out.append(Finding(f"{s.id}|own-rates|{s.alt}".replace(" ", ""), s.loc,
                           f"{s.id} can return a combination of bands or filters that have their own sampling rates"
                           + (f" ({s.alt})" if s.alt else "")))
    for a, b, ok, n in s.extra or ():
        if ok or exempt(s.id, a, b):
            continue
        if not mode and any(s.id.endswith(x) for x in BUILDERS):
            continue
        need = next((v for k, v in BRANCHES.items() if s.id.endswith(k[0]) and (a, b) == k[1:]), None)
        if need is not None and n >= need:
            continue
        what = f"the elements of {a}" if a == b else f"{a} and {b}"
        out.append(Finding(f"{s.id}|{a}|{b}", s.loc, f"{s.id} can return without the sampling rates of {what} having "
                           f"been found equal" + (f" ({s.alt})" if s.alt else "")
                           + ("" if mode else " when bands have their own rates")))
    return out


def run(ctx):
    findings, hits, n, nr, ops = [], set(), 0, 0, set()
    cov = None
    for mode in (True, False):
        t = frozenset([("const", mode)])
        own, selfs = sweep_all(ctx, extra=extra, plain=False, more=lambda p, e: given(p, e) + options(p, e), selfcheck=True, alts=True, opts={
            "guards": True, "nonempty": True,
            "presets": {"_MultiBandSignal__same_sampling_rate": t, "_FilterBank__same_sampling_rate": t}})
        for s in own:
            findings += judge(s, mode)
            n += len(s.extra or ())
            nr += not mode and must_reject(s)
            if s.extra:
                ops.add(s.id)
        hits |= {s.name for s in selfs if judge(s, mode)}
        cov = cov or coverage(own)
    cov["operations_swept"] = cov["operations_analysed"]
    cov["operations_analysed"] = len(ops)
    cov["pairs_checked"] = n
    cov["rejected_variants_checked"] = nr
    cov["rule"] = "an equality of both rates holds at every normal exit for each pair of objects"
    return findings, hits, cov
