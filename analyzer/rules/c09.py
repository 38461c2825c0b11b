"""C09: processing preserves the kind, sampling rate and settings of its input."""
import ast
import json
import os

from ..core import Finding, VERIF
from ..effects import equal_value
from ..facts import sweep_all, coverage, class_table, SETTINGS
from ..program import AnalysisBroken
from ..values import V

EXPLANATION = """Every public operation is interpreted abstractly once per kind of input and once per value of every option. At
the normal exits the signals, impulse responses, multi-band signals, spectra, filters and filter banks handed out (also
inside tuples, lists and dictionaries, and the bands and filters they hold) are examined: their class, and for every setting
they have in common with an input object whether it is the unchanged setting of that input, computed from it, or unrelated.
rules/c09_table.json holds the confirmed facts of the tree; a result of another class and a setting that is no longer
carried over are reported. Independently, every loop of the package over bands, channels or filters (by iteration or by
index, with the count followed through local names) has to cover all of them: partial ranges, slices and loops left by an
unconditional return or break are reported."""
ASSUMPTIONS = ["a setting counts as carried over if it is the same abstract value or the same (copied) object content",
               "the scale factor applied to constrain amplitudes and filter states are no settings",
               "the members of containers are signals or impulse responses and containers are not empty"]
MINIMUM = {"results_examined": 700, "settings_compared": 2500, "loops_over_members": 85}

SELFCHECK = '''
from __future__ import annotations
import numpy as np
from .classes.signal import Signal
from .classes.impulse_response import ImpulseResponse
from .classes.multibandsignal import MultiBandSignal


def good_process(sig: Signal):
    return sig.copy_with_new_time_data(sig.time_data * 2.0)


def good_parts(sig: Signal):
    x = sig.time_data ** 2
    return type(sig).from_time_data(x, sig.sampling_rate_hz, constrain_amplitude=sig.constrain_amplitude)


def bad_kind(sig: Signal):
    return Signal.from_time_data(sig.time_data * 2.0, sig.sampling_rate_hz, constrain_amplitude=sig.constrain_amplitude)


def bad_settings(sig: Signal):
    return type(sig).from_time_data(sig.time_data * 2.0, sig.sampling_rate_hz)


def bad_rate(sig: Signal):
    out = sig.copy_with_new_time_data(sig.time_data * 2.0)
    out.sampling_rate_hz = 48000
    return out


def good_loop(sig: MultiBandSignal):
    n = sig.number_of_bands
    tot = 0.0
    for i in range(n):
        if sig.bands[i].is_complex_signal:
            continue
        tot += np.sum(sig.bands[i].time_data)
    return tot


def bad_range(sig: MultiBandSignal):
    n = sig.number_of_bands
    tot = 0.0
    for i in range(n - 1):
        tot += np.sum(sig.bands[i].time_data)
    return tot


def bad_slice(sig: MultiBandSignal):
    return sum(np.sum(b.time_data) for b in sig.bands[1:])


def bad_exit(sig: MultiBandSignal):
    for b in sig.bands:
        tot = np.sum(b.time_data)
        return tot
'''
SELF_BAD = {"bad_kind", "bad_settings", "bad_rate", "bad_range", "bad_slice", "bad_exit"}
TABLE = os.path.join(VERIF, "analyzer", "rules", "c09_table.json")
RANK = {"no": 0, "from": 1, "same": 2}
KINDS = ("Signal", "MultiBandSignal", "Spectrum", "Filter", "FilterBank")
PRESETS = {"_MultiBandSignal__bands": "Signal|ImpulseResponse"}
# per-stream state and what is counted from the content are no settings
NOT = {"zi", "_Spectrum__frequency_vector_type", "_Signal__amplitude_scale_factor", "_MultiBandSignal__number_of_channels"}
DICTS = ("_spectrum_parameters", "_spectrogram_parameters")
IMAGINARY = {"_Signal__time_data_imaginary"}
MEMBERS = ("_MultiBandSignal__bands", "_FilterBank__filters")


def family(prog, ci):
    for c in ci.mro():
        if c.name in KINDS:
            return c.name
    return None


def handed_out(ip, st, v, prog, depth=3, path=""):
    """(path, object) of the signals, spectra, filters in v"""
    out = []
    for o in sorted(v.objs):
        ob = ip.objs[o]
        if ob.kind == "inst":
            if family(prog, ob.cls):
                out.append((path, o))
        elif ob.kind in ("tuple", "list", "iter", "dict") and depth:
            for f in sorted(ob.fnames):
                x = st.heap.get((o, f))
                if x is not None and f != "#mut":
                    g = "[]" if ob.kind == "list" else f
                    out += handed_out(ip, st, x, prog, depth - 1, path + g)
    return out


def held(ip, st, o, f):
    """content of a field at the end, also of an object never looked into"""
    x = st.heap.get((o, f))
    if x is None and (ip.objs[o].origin is not None or ip.objs[o].clone_of is not None):
        x = ip.init_value(o, f)
    return x


def elements(prog, ip, st, o, f, init=False):
    if f not in prog.fields(ip.objs[o].cls):
        return []
    v = ip.init_value(o, f) if init else held(ip, st, o, f)
    out = []
    if v is None:
        return out
    for lo in sorted(v.objs):
        for g in sorted(ip.objs[lo].fnames | {"[]"}):
            if g == "#mut":
                continue
            x = st.heap.get((lo, g))
            if init or x is None and (ip.objs[lo].origin is not None or ip.objs[lo].clone_of is not None):
                x = ip.init_value(lo, g)
            if x is not None:
                out += [e for e in sorted(x.objs) if ip.objs[e].kind == "inst"]
    return out


def from_field(t, origin, f):
    """token of the field of the object, or of the sampling rate of its members"""
    o = [str(y) for y in origin or ()]
    q = t.split(".")
    if not o or q[:len(o)] != o:
        return False
    return f in q[len(o):] or f in IMAGINARY and f.split("__")[-1] in q[len(o):] or f.endswith("__sampling_rate_hz") and any(x.endswith("sampling_rate_hz") for x in q[len(o):])


def compare(ip, st, o, fields, p):
    """field -> same / from / no"""
    out = {}
    for f in sorted(fields):
        x = held(ip, st, o, f)
        if x is None:
            continue
        init = ip.init_value(p, f)
        if equal_value(ip, st, x, init):
            out[f] = "same"
        elif any(from_field(t, ip.objs[p].origin, f) for t in ip.deps_of(x, st, 8)):
            out[f] = "from"
        else:
            out[f] = "no"
        if f in DICTS and out[f] != "same":
            entries(ip, st, x, init, p, f, out)
    return out


def entries(ip, st, x, init, p, f, out):
    """the entries of a dictionary of settings, one by one"""
    for a in sorted(x.objs):
        oa = ip.objs[a]
        if oa.kind != "dict" or len(init.objs) != 1 or (a, "#mut") in st.heap:
            continue
        b = next(iter(init.objs))
        for g in sorted(oa.fnames | ip.objs[b].fnames):
            if g in ("#mut", "[]"):
                continue
            y = st.heap.get((a, g))
            if y is None:
                if oa.origin is None and oa.clone_of is None:
                    continue
                c = "same"
            elif equal_value(ip, st, y, ip.init_value(b, g)):
                c = "same"
            else:
                c = "from" if any(from_field(t, ip.objs[p].origin, f) for t in ip.deps_of(y, st, 8)) else "no"
            k = f"{f}{g}"
            out[k] = c if k not in out else min(out[k], c, key=lambda z: RANK[z])


def merge(a, b):
    """facts that hold for both"""
    rank = ["no", "from", "same"]
    return {f: rank[min(rank.index(a[f]), rank.index(b[f]))] for f in a if f in b}


def extra(prog, entry, res):
    ip, st = res.ip, res.state
    if st is None or res.value is None:
        return None
    tab = class_table(prog, SETTINGS)
    for c, fs in tab.items():
        if "_Signal__constrain_amplitude" in fs:
            tab[c] = fs | IMAGINARY
    ins = {}
    so = getattr(ip, "self_oid", None)
    args = dict(res.args)
    for name, v in args.items():
        os_ = [o for o in v.objs if ip.objs[o].kind == "inst" and ip.objs[o].origin is not None]
        os_ = [o for o in os_ if family(prog, ip.objs[o].cls)]
        if len(os_) >= 1:
            ins[name] = os_
    out = {}
    for path, o in handed_out(ip, st, res.value, prog):
        cls = ip.objs[o].cls
        rec = out.setdefault(path, {"classes": [], "carry": {}})
        if cls.name not in rec["classes"]:
            rec["classes"].append(cls.name)
        mem = [e for f in MEMBERS for e in elements(prog, ip, st, o, f)]
        for e in mem:
            n = "member:" + ip.objs[e].cls.name
            if n not in rec["classes"]:
                rec["classes"].append(n)
        for name, ps in ins.items():
            for p in ps:
                pc = ip.objs[p].cls
                fs = (tab.get(cls.name, set()) & tab.get(pc.name, set())) - NOT
                if fs:
                    c = compare(ip, st, o, fs, p)
                    k = name
                    rec["carry"][k] = c if k not in rec["carry"] else merge(rec["carry"][k], c)
                pm = [e for f in MEMBERS for e in elements(prog, ip, st, p, f, True)]
                for tag, xs, ys in (("members", mem, pm), ("members<-", mem, [p]), ("<-members", [o], pm)):
                    for x in xs:
                        for y in ys:
                            xc, yc = ip.objs[x].cls, ip.objs[y].cls
                            if xc is not yc and len({ip.objs[q].cls.name for q in ys}) > 1:
                                continue
                            fs = (tab.get(xc.name, set()) & tab.get(yc.name, set())) - NOT
                            if not fs:
                                continue
                            c = compare(ip, st, x, fs, y)
                            k = f"{name}:{tag}"
                            rec["carry"][k] = c if k not in rec["carry"] else merge(rec["carry"][k], c)
    for rec in out.values():
        rec["classes"].sort()
    return out


# ------------------------------------------------------------------ loops over bands, channels and filters
COUNTS = ("number_of_bands", "number_of_channels", "number_of_filters", "n_channels", "n_bands")
LISTS = ("bands", "filters")
# recurrences over the members that start elsewhere on purpose
LOOPS_EXEMPT = set()


def aliases(fn):
    """local names assigned exactly once, and by a plain assignment"""
    vals, many = {}, set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            if n.id in vals:
                many.add(n.id)
            vals.setdefault(n.id, None)
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id not in many:
                vals[n.targets[0].id] = n.value
    return {k: v for k, v in vals.items() if v is not None}


def is_list(e, al, depth=3):
    if isinstance(e, ast.Name) and depth and e.id in al:
        return is_list(al[e.id], al, depth - 1)
    return isinstance(e, ast.Attribute) and e.attr in LISTS


def is_count(e, al, depth=3):
    """the number of bands, channels or filters of something"""
    if isinstance(e, ast.Name):
        return e.id in COUNTS and e.id not in al or depth > 0 and e.id in al and is_count(al[e.id], al, depth - 1)
    if isinstance(e, ast.Attribute):
        return e.attr in COUNTS
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        if e.func.id == "len" and len(e.args) == 1:
            return is_list(e.args[0], al)
        if e.func.id == "int" and len(e.args) == 1:
            return is_count(e.args[0], al, depth)
    return False


def about_count(e, al, depth=3):
    return any(is_count(x, al) or isinstance(x, ast.Name) and depth and x.id in al and not is_count(x, al)
               and isinstance(al[x.id], (ast.BinOp, ast.Call)) and arithmetic(al[x.id], al, depth - 1)
               for x in ast.walk(e) if isinstance(x, ast.expr))


def arithmetic(e, al, depth):
    return isinstance(e, ast.BinOp) and depth > 0 and about_count(e, al, depth)


def const(e):
    try:
        return ast.literal_eval(e)
    except (ValueError, TypeError, SyntaxError):
        return None


def partial(it, al, depth=3):
    """None: no loop over members; "" : over all of them; otherwise what is left out"""
    if isinstance(it, ast.Name) and it.id in al and depth:
        return partial(al[it.id], al, depth - 1)
    if isinstance(it, ast.Call):
        f = it.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if name in ("enumerate", "tqdm", "list", "reversed", "iter", "tuple") and it.args:
            return partial(it.args[0], al, depth)
        if name == "zip":
            r = [partial(a, al, depth) for a in it.args]
            r = [x for x in r if x is not None]
            return next((x for x in r if x), "") if r else None
        if name in ("range", "arange") and 1 <= len(it.args) <= 3:
            a = it.args
            stop = a[0] if len(a) == 1 else a[1]
            if not about_count(stop, al):
                if len(a) == 3 and any(about_count(x, al) for x in a) and const(a[2]) == -1:
                    return ""
                return None
            if len(a) > 1 and const(a[0]) != 0:
                # triangular loops start at another index
                if const(a[0]) is None:
                    return None
                return "starts at " + ast.unparse(a[0])
            if len(a) == 3 and const(a[2]) != 1:
                return "step " + ast.unparse(a[2])
            if is_count(stop, al):
                return ""
            if isinstance(stop, ast.Name) and stop.id in al:
                stop = al[stop.id]
            if isinstance(stop, ast.BinOp) and isinstance(stop.op, ast.Sub) and is_count(stop.left, al):
                return "ends before " + ast.unparse(stop)
            return None
        return None
    if isinstance(it, ast.Subscript) and is_list(it.value, al):
        if isinstance(it.slice, ast.Slice):
            sl = it.slice
            if (sl.lower is None or const(sl.lower) == 0) and sl.upper is None and (
                    sl.step is None or const(sl.step) in (1, -1)):
                return ""
            return "only " + ast.unparse(it)
        return None
    if is_list(it, al):
        return ""
    return None


def loops(prog, fns):
    """-> ([(function, line, what)], number of loops over members)"""
    out, n = [], 0
    for f in fns:
        al = aliases(f.node)
        for x in ast.walk(f.node):
            its = []
            if isinstance(x, ast.For):
                its = [x.iter]
            elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                its = [g.iter for g in x.generators]
            for it in its:
                p = partial(it, al)
                if p is None:
                    continue
                n += 1
                if p:
                    out.append((f, it.lineno, f"the loop does not cover all members ({p})"))
                elif isinstance(x, ast.For):
                    for stmt in x.body:
                        if isinstance(stmt, (ast.Return, ast.Break)):
                            out.append((f, stmt.lineno, "the loop over the members is left in its first pass"))
    return out, n


# ------------------------------------------------------------------ judging
def load():
    with open(TABLE, encoding="utf-8") as fh:
        return json.load(fh)


def key(s):
    return f"{s.id}[{s.alt}]"


def gather(ctx):
    own, selfs = sweep_all(ctx, extra=extra, options="single", opts={"nonempty": True, "presets": PRESETS})
    # multi-band signals with bands of one kind
    for kind in ("Signal", "ImpulseResponse"):
        more, _ = sweep_all(ctx, extra=extra, selfcheck=False, opts={"nonempty": True, "presets": {
            "_MultiBandSignal__bands": kind}})
        for s in more:
            if s.extra and ("MultiBandSignal" in s.alt or s.cls == "MultiBandSignal" or any(
                    "MultiBandSignal" in r["classes"] for r in s.extra.values())):
                s.alt = (s.alt + "," if s.alt else "") + f"bands:{kind}"
                own.append(s)
    return own, selfs


PLAIN = {"same": "carried over", "from": "computed from it", "no": "not carried over"}


def judge(s, frozen, ident):
    out = []
    if s.extra is None or frozen is None:
        return out
    show = f" for {s.alt}" if s.alt else ""
    for path, fr in frozen.items():
        now = s.extra.get(path)
        if now is None:
            continue
        where = f" (element {path})" if path else ""
        for c in now["classes"]:
            if c not in fr["classes"]:
                out.append(Finding(f"kind|{key(s)}|{path}|{c}", s.loc,
                                   f"{ident}: the result{where} can be a {c}, not {'/'.join(fr['classes'])}{show}"))
        for k, fields in fr["carry"].items():
            cur = now["carry"].get(k)
            if cur is None:
                continue
            for f in sorted(cur):
                base = f.split("[")[0]
                if f != base and f not in fields and cur[f] != "same" and any(g.startswith(base + "[") for g in fields):
                    out.append(Finding(f"entry|{key(s)}|{path}|{k}|{f}", s.loc,
                                       f"{ident}: {f.lstrip('_')} of the result{where} is changed, was as in {k}{show}"))
            for f, cat in fields.items():
                if f in cur and RANK[cur[f]] < RANK[cat]:
                    out.append(Finding(f"setting|{key(s)}|{path}|{k}|{f}", s.loc,
                                       f"{ident}: {f.split('__')[-1]} of the result{where} is {PLAIN[cur[f]]} "
                                       f"from {k}, was {PLAIN[cat]}{show}"))
    return out


def strict(s):
    """what is expected of the examples"""
    out = {}
    kind = s.alt.split("=")[-1]
    for path, r in (s.extra or {}).items():
        out[path] = {"classes": [kind], "carry": {"sig": {f: "from" for f in r["carry"].get("sig", {})
                                                          if f.endswith(("sampling_rate_hz", "constrain_amplitude"))}}}
    return out


def run(ctx):
    table = load()
    own, selfs = gather(ctx)
    findings, seen = [], set()
    for s in own:
        seen.add(key(s))
        findings += judge(s, table["results"].get(key(s)), s.id)
    lost = [k for k in table["results"] if k not in seen]
    if len(lost) > 0.05 * len(table["results"]):
        raise AnalysisBroken(f"{len(lost)} of {len(table['results'])} confirmed results not found, e.g. {lost[0]}")
    empty = [s for s in own if table["results"].get(key(s)) and not s.extra]
    for s in empty[:5]:
        print(f"note: no result any more: {key(s)}")
    if len(empty) > 0.05 * len(table["results"]):
        raise AnalysisBroken(f"{len(empty)} operations without a result")
    exempt = {tuple(x) for x in table["loops"]}
    bad, n = loops(ctx.prog, [f for f in ctx.prog.functions if f not in set(ctx.self_functions())])
    for f, line, what in bad:
        if (f.qualname, what) not in exempt:
            findings.append(Finding(f"loop|{f.qualname}|{what}", f"{f.module.path}:{line}" if hasattr(f.module, "path") else f.loc,
                                    f"{f.qualname}: {what}"))
    hits = {s.name for s in selfs if judge(s, strict(s), s.name)}
    hits |= {f.name for f, _, _ in loops(ctx.prog, ctx.self_functions())[0]}
    cov = coverage(own)
    cov["results_examined"] = sum(len(s.extra or {}) for s in own)
    cov["settings_compared"] = sum(len(c) for s in own for r in (s.extra or {}).values() for c in r["carry"].values())
    cov["loops_over_members"] = n
    return findings, hits, cov
