"""C08: every public parameter influences the outcome."""
import ast
import json
import os

from ..core import Finding, VERIF
from .. import lint
from ..effects import changed_fields
from ..interp import Hook, tok
from ..facts import sweep_all, coverage
from ..program import mangle, AnalysisBroken
from ..values import V

EXPLANATION = """Every public operation is interpreted abstractly once per accepted kind of input and once per value of every
option (enumeration members, truth values, None or given). The interpreter carries a dependence set with every value: the
parameters, and the parts of their objects, from which the value was computed or which decided that it is computed
(data and control dependence, through calls, fields, containers and closures). At the normal exits the dependence sets of the
returned value, of everything the call changed in its objects, of the object built by a constructor, and of everything
handed to plotting, printing and file functions are collected. A parameter in none of them cannot influence the outcome.
rules/c08_table.json lists the confirmed parameters which deliberately do not matter for an input kind or option value
(e.g. a quality factor of a first-order filter), those which only decide whether the call is accepted, and the entries of the
analysis settings of a signal on which an operation depends; anything else without influence is reported. Each element of a
returned tuple is judged by itself as well. Where a parameter of the operation alone determines an optional parameter of a
function of the package at every call of it, it still has to reach it at every call that is left. An array that a loop fills
must not be read at the present index before it is written there (what is read is its initial value). In addition, every field written by a constructor or a set-method of a class
has to be read somewhere outside of them."""
ASSUMPTIONS = ["dependence is over-approximated: a parameter reported as influencing may still be without numerical effect",
               "functions of numpy, scipy and matplotlib depend on all the arguments they are given",
               "the members of containers are signals or impulse responses and containers are not empty"]
TABLE = os.path.join(VERIF, "analyzer", "rules", "c08_table.json")
OPTS = {"nonempty": True, "presets": {"_MultiBandSignal__bands": "Signal|ImpulseResponse"}}
PARAM_FIELDS = ("_spectrum_parameters", "_spectrogram_parameters")
MINIMUM = {"parameter_variants_checked": 5000, "settings_checked": 800, "passed_parameters_checked": 2000, "fields_of_classes_checked": 60}

SELFCHECK = '''
from __future__ import annotations
import numpy as np
from numpy.typing import NDArray
from .classes.signal import Signal
from .classes.multibandsignal import MultiBandSignal
from .standard.enums import Window


def _helper(s: Signal, gain: float = 1.0):
    return s.copy_with_new_time_data(s.time_data * gain)


def good_bands(sig: Signal | MultiBandSignal, gain: float):
    if isinstance(sig, MultiBandSignal):
        out = sig.copy()
        for n in range(sig.number_of_bands):
            out.bands[n] = good_bands(sig.bands[n], gain)
        return out
    return _helper(sig, gain)


def bad_bands(sig: Signal | MultiBandSignal, gain: float):
    if isinstance(sig, MultiBandSignal):
        out = sig.copy()
        for n in range(sig.number_of_bands):
            out.bands[n] = _helper(sig.bands[n])
        return out
    return _helper(sig, gain)


def good_control(x: NDArray[np.float64], flag: bool, n: int):
    y = x.copy()
    if flag:
        y = y[::-1]
    for _ in range(n):
        y = np.diff(y)
    return y


def bad_unused(x: NDArray[np.float64], axis: int):
    axis = 0
    return np.sum(x, axis=axis)


def good_recursion(x: NDArray[np.float64]):
    y = np.zeros(len(x))
    for i in range(1, len(x)):
        if y[i - 1] > x[i]:
            y[i] = x[i]
        y[i] = y[i] + x[i]
    return y


def _stale(x: NDArray[np.float64]):
    y = np.zeros(len(x))
    for i in range(1, len(x)):
        if y[i] > x[i]:
            y[i] = x[i]
        y[i] = y[i] + x[i]
    return y


def bad_window(x: NDArray[np.float64], w: Window):
    w = Window.Hann
    return x * w(len(x), True)


def good_closure(x: NDArray[np.float64], k: float):
    def f(y):
        return y * k

    return f(x)


def bad_slot(x: NDArray[np.float64], k: float):
    return k, np.abs(x), np.ones(3)


class _Tool:
    def __init__(self, a: float, b: float):
        self.used = a
        self.unused_field_b = b

    def apply(self, x):
        return x * self.used
'''
SELF_BAD = {"bad_bands", "bad_unused", "bad_window"}


class Passed(Hook):
    """what the optional parameters of the functions of the package are given"""
    def on_call(self, ip, st, fi, env, node):
        if fi.cls is not None and any(c.name == "Signal" for c in fi.cls.mro()) and (
                fi.name == "__init__" or fi.name.startswith("from_") or fi.name == "copy_with_new_time_data"):
            return None         # building results is judged by C02 and C09
        opt = [p.name for i, p in enumerate(fi.params) if p.kind not in ("vararg", "kwarg") and p.name in env
               and not (i == 0 and fi.kind in ("method", "getter", "setter", "classmethod"))]
        if not opt:
            return None
        if not hasattr(ip, "passed"):
            ip.passed = {}
        sites = ip.passed.setdefault(f"{fi.qualname} from {ip.where()}", {})
        site = sites.setdefault((ip.where(), getattr(node, "lineno", 0), getattr(node, "col_offset", 0)), {})
        ctl = origins(ip.cur_ctl | st.sticky)
        for q in opt:
            a, b, c = site.setdefault(q, (set(), set(), set()))
            a |= origins(ip.deps_of(env[q], st, 2))
            b |= ctl
            c |= {repr(x[2]) for x in env[q].consts if x[0] == "c"} | self.written(ip, fi, q, node)
        return None

    def written(self, ip, fi, q, node):
        """literals that the call may give to q"""
        if not isinstance(node, ast.Call) or not ip.frames:
            return set()
        if not hasattr(self, "seen"):
            self.seen = {}
        k = (id(node), fi.qualname, q)
        if k not in self.seen:
            names = [p.name for p in fi.params]
            if fi.kind in ("method", "getter", "setter", "classmethod") and names:
                names = names[1:]
            e = next((w.value for w in node.keywords if w.arg == q), None)
            if e is None and q in names and names.index(q) < len(node.args) \
                    and not any(isinstance(a, ast.Starred) for a in node.args):
                e = node.args[names.index(q)]
            self.seen[k] = literals(e, ip.frames[-1].fi.node)
        return self.seen[k]


def literals(e, fn, depth=3):
    if isinstance(e, ast.Constant):
        return {repr(e.value)} if e.value is not None else set()
    if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant):
        return {ast.unparse(e)}
    if isinstance(e, ast.IfExp):
        return literals(e.body, fn, depth) | literals(e.orelse, fn, depth)
    if isinstance(e, ast.BoolOp) and len(e.values) == 2:
        return literals(e.values[1], fn, depth)
    if isinstance(e, ast.Name) and depth:
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) \
                    or isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                out |= literals(n.value, fn, depth - 1)
        return out
    return set()


def passed(ip):
    """{function: {parameter: (the one entry parameter it is computed from at every call, if so;
    entry parameters it is computed from or chosen by at every call)}}"""
    out = {}
    for g, sites in getattr(ip, "passed", {}).items():
        for q in sorted({q for s in sites.values() for q in s}):
            rec = [s[q] for s in sites.values() if q in s]
            one = set.union(*[a for a, _, _ in rec])
            out.setdefault(g, {})[q] = (sorted(one) if len(one) == 1 and all(a for a, _, _ in rec) else [],
                                        sorted(set.intersection(*[a | b for a, b, _ in rec])),
                                        sorted(set.union(*[c for _, _, c in rec])))
    return out


FIELDS = set()
MANY = 6


def name_fields(prog):
    """fields of the classes as they are called in origins"""
    FIELDS.clear()
    for ci in prog.classes.values():
        FIELDS.update(tok(("self", f)).split(".", 1)[1] for f in prog.fields(ci))


def mkhooks():
    return (Passed(),)


def params(entry):
    return [p.name for i, p in enumerate(entry.fi.params)
            if not (i == 0 and entry.fi.kind in ("method", "getter", "setter", "classmethod"))]


def origins(d):
    """entry parameters, or fields of the receiver, a value is computed from"""
    return {".".join(t.split(".")[:2]) if t.startswith("self.") else t.split(".")[0] for t in d if t != "self"}


def roots(d):
    return {t.split(".")[0] for t in d}


def extra(prog, entry, res):
    ip, st = res.ip, res.state
    if st is None:
        return None
    d = set(ip.sinks) | set(ip.printed)
    slots = {}
    if res.value is not None:
        d |= ip.deps_of(res.value, st, 8)
        v = res.value
        if v.objs and not v.unk and not v.consts and all(ip.objs[o].kind == "tuple" and ip.objs[o].origin is None
                                                         for o in v.objs):
            for o in v.objs:
                for f in ip.objs[o].fnames:
                    if f[1:-1].isdigit() and (o, f) in st.heap:
                        slots.setdefault(int(f[1:-1]), set()).update(ip.deps_of(st.heap[(o, f)], st, 8) | v.deps)
    for oid, origin, f, v in changed_fields(res):
        d |= ip.deps_of(v, st, 8) | st.odeps.get(oid, frozenset())
    for oid, dd in st.odeps.items():
        o = ip.objs[oid]
        if o.origin is not None and (o.kind in ("any", "callable") or (oid, "#mut") in st.heap):
            d |= dd
    for (oid, f) in st.heap:
        if f == "#mut" and ip.objs[oid].origin is not None:
            d |= st.odeps.get(oid, frozenset())
    so = getattr(ip, "self_oid", None)
    if so is not None and ip.objs[so].origin is None:
        d |= ip.deps_of(V(objs=frozenset([so])), st, 8)
    ps = params(entry)
    r, g = roots(d), roots(ip.raise_deps)
    none = [p for p in ps if p not in r and p not in g]
    guard = [p for p in ps if p not in r and p in g]
    sl = {}
    for i, dd in slots.items():
        rr = roots(dd)
        m = [p for p in ps if p not in rr and p in r]
        if m:
            sl[i] = m
    settings = set()
    for t in d:
        q = t.split(".")
        for i, x in enumerate(q[1:], 1):
            if x in PARAM_FIELDS:
                settings.add(".".join(q[:i + 1]) + ("." + q[i + 1] if len(q) > i + 1 else ""))
    return {"names": ps, "n": len(ps), "none": none, "guard": guard, "slots": sl, "nslots": len(slots), "settings": sorted(settings),
            "passed": passed(ip)}


def fixed(alt):
    return {x.split("=")[0] for x in alt.split(",") if "=" in x}


def key(s):
    return f"{s.id}[{s.alt}]"


def gather(ctx, pairs=False):
    return sweep_all(ctx, extra=extra, mkhooks=mkhooks, options="pairs" if pairs else "single", opts=OPTS, selfoptions=not pairs)


def load():
    with open(TABLE, encoding="utf-8") as fh:
        return json.load(fh)


def relevant(s, ps):
    """an option that is fixed in this variant can have been decided before the analysed paths"""
    fx = fixed(s.alt) if s.option else set()
    return [p for p in ps if p not in fx]


def judge(s, table, ident):
    e = s.extra
    if e is None:
        return []
    k = key(s)
    t = table["variants"].get(k) or table.get("pairs", {}).get(k)
    if t is None and s.option and pairs_of(s, table):
        t = {}
    out = []
    if t is not None and s.option:
        # what does not matter for one of the two options does not matter for both
        for q in pairs_of(s, table):
            u = table["variants"].get(q)
            if u:
                t = {"none": set(t.get("none", ())) | set(u.get("none", ())),
                     "guard": set(t.get("guard", ())) | set(u.get("guard", ())),
                     "slots": t.get("slots", {}), "nslots": t.get("nslots", 0), "settings": t.get("settings", ())}
    known = s.id in table["operations"]
    if t is None:
        if known and s.option and k not in table["plain"]:
            return []           # an option value that did not exist before
        t = {}
    what = f" for {s.alt}" if s.alt else ""
    newp = set(params_of(s)) - set(table["operations"].get(s.id, ())) if known else set()
    for p in relevant(s, e["none"]):
        if p not in t.get("none", ()) and p not in t.get("guard", ()):
            out.append(Finding(f"none|{k}|{p}", s.loc, f"{ident}: parameter {p} has no influence on the outcome{what}"))
    for p in relevant(s, e["guard"]):
        if p not in t.get("guard", ()) and p not in t.get("none", ()) and known and p not in newp:
            out.append(Finding(f"guard|{k}|{p}", s.loc,
                               f"{ident}: parameter {p} is checked but does not influence the outcome{what}"))
    if known and e["nslots"] == t.get("nslots", 0):
        for i, ps in e["slots"].items():
            for p in relevant(s, ps):
                if p not in t.get("slots", {}).get(str(i), ()) and p not in t.get("none", ()) \
                        and p not in t.get("guard", ()) and p not in newp:
                    out.append(Finding(f"slot|{k}|{i}|{p}", s.loc,
                                       f"{ident}: parameter {p} does not influence element {i} of the result{what}"))
    now = set(e["settings"])
    for x in t.get("settings", ()):
        if x not in now:
            out.append(Finding(f"setting|{k}|{x}", s.loc, f"{ident}: the setting {x} has no influence any more{what}"))
    for g, qs in t.get("passed", {}).items() if not s.option else ():
        for q, (ps, cs) in qs.items():
            have = e["passed"].get(g, {}).get(q)
            for p in ps if have is not None else ():
                if p.startswith("self.") and p not in have[1] and p.split(".")[1] not in FIELDS:
                    continue        # the field has another name now
                if p not in have[1]:
                    out.append(Finding(f"passed|{k}|{g}|{q}|{p}", s.loc,
                                       f"{ident}: {p} is not passed on to {q} of {g} any more{what}"))
                elif len(cs) < MANY and set(have[2]) - set(cs):
                    out.append(Finding(f"replaced|{k}|{g}|{q}|{p}", s.loc,
                                       f"{ident}: {q} of {g} is {' or '.join(sorted(set(have[2]) - set(cs)))} instead of "
                                       f"{p} on some path{what}"))
    return out


def pairs_of(s, table):
    """the single-option variants a two-option variant consists of"""
    parts = [x for x in s.alt.split(",") if x]
    out = []
    for i in range(len(parts)):
        q = f"{s.id}[{','.join(parts[:i] + parts[i + 1:])}]"
        if q in table["variants"]:
            out.append(q)
    return out


def params_of(s):
    return s.extra.get("names", ())


# ------------------------------------------------------------------ fields nobody reads
def related(a, b):
    return a is b or a in b.all_subclasses() or b in a.all_subclasses()


def dead_fields(prog):
    """(class, field, location, number of fields looked at): fields given a value by a constructor or set-method from one
    of its parameters and never read outside of the functions that write them"""
    import ast
    reads = {}              # field -> {(function, class whose object is read or None)}
    for f in prog.functions:
        me = f.params[0].name if f.cls is not None and f.params and f.kind in ("method", "getter", "setter") else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                own = isinstance(n.value, ast.Name) and n.value.id == me
                reads.setdefault(mangle(f.cls, n.attr), set()).add((f.qualname, f.cls if own else None))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") \
                    and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                reads.setdefault(mangle(f.cls, str(n.args[1].value)), set()).add((f.qualname, None))
    out, count = [], 0
    for f in prog.functions:
        if f.cls is None or f.kind not in ("method", "setter") or not f.params:
            continue
        if not (f.name == "__init__" or f.name.startswith(("set_", "_set_")) or f.kind == "setter"):
            continue
        me = f.params[0].name
        names = {p.name for p in f.params[1:]}
        for n in ast.walk(f.node):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value else []
            for t in tg:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                    used = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & names
                    k, _ = f.cls.lookup(t.attr)
                    if not used or k == "prop":
                        continue
                    count += 1
                    fld = mangle(f.cls, t.attr)
                    line = {c for c in prog.classes.values() if related(c, f.cls)}
                    if not any(q != f.qualname and (c is None or c in line) for q, c in reads.get(fld, ())):
                        out.append((f, t.attr, sorted(used)))
    return out, count


def run(ctx):
    name_fields(ctx.prog)
    table = load()
    own, selfs = gather(ctx)
    findings = []
    now = {key(s) for s in own}
    ids = {s.id for s in own}
    gone = sorted(set(table["operations"]) - ids)
    for g in gone[:10]:
        print(f"note: operation of the table not found: {g}")
    lostv = [k for k in table["plain"] if k not in now]
    if len(gone) > 0.03 * len(ids) or len(lostv) > 0.05 * len(table["plain"]):
        raise AnalysisBroken(f"{len(gone)} operations / {len(lostv)} variants of the confirmed table not found")
    for s in own:
        findings += judge(s, table, s.id)
    if ctx.thorough:
        more, _ = gather(ctx, True)
        for s in more:
            if key(s) not in now:
                findings += judge(s, table, s.id)
                own.append(s)
    stale, nstale = lint.stale_reads(ctx.prog)
    if {f.name for f, _, _ in stale if "_verif_selfcheck" in f.qualname} != {"_stale"}:
        raise AnalysisBroken("rule on elements read before they are written no longer separates its examples")
    for f, name, line in stale:
        if "_verif_selfcheck" not in f.qualname:
            findings.append(Finding(f"initial|{f.qualname}|{name}", f"{f.module.relpath}:{line}",
                                    f"{f.qualname}: what is compared or used at this place is always the initial value of {name}, "
                                    "the element is written later in the same pass"))
    dead, count = dead_fields(ctx.prog)
    exempt = {tuple(x) for x in table.get("fields", ())}
    sdead = set()
    for f, attr, used in dead:
        loc = f.loc
        if f.cls.name == "_Tool":
            sdead.add(attr)
            continue
        if (f.cls.name, attr) in exempt:
            continue
        findings.append(Finding(f"field|{f.cls.name}|{attr}", loc,
                                f"{f.qualname}: {', '.join(used)} is stored in {attr}, which nothing reads"))
    if sdead != {"unused_field_b"}:
        raise AnalysisBroken(f"field rule no longer separates its examples: {sdead}")
    sp = {}
    for s in selfs:
        for g, qs in (s.extra or {}).get("passed", {}).items():
            if "._helper from " in g and not s.option:
                sp.setdefault(s.name, []).append("gain" in qs["gain"][1])
    if not all(sp.get("good_bands", [False])) or all(sp.get("bad_bands", [True])):
        raise AnalysisBroken(f"rule on passed parameters no longer separates its examples: {sp}")
    empty = {"variants": {}, "operations": {}, "plain": ()}
    hits = {s.name for s in selfs if not s.name.startswith("_") and s.name != "apply" and judge(s, empty, s.name)}
    cov = coverage(own)
    cov["parameter_variants_checked"] = sum(s.extra["n"] for s in own if s.extra)
    cov["arrays_filled_in_loops_checked"] = nstale
    cov["passed_parameters_checked"] = sum(len(ps) for s in own if not s.option for qs in
                                           table["variants"].get(key(s), {}).get("passed", {}).values() for ps, _ in qs.values())
    cov["settings_checked"] = sum(len(table["variants"].get(key(s), {}).get("settings", ())) for s in own)
    cov["deliberately_without_influence"] = sum(len(v.get("none", ())) for v in table["variants"].values())
    cov["tuple_elements_checked"] = sum(s.extra["nslots"] for s in own if s.extra)
    cov["fields_of_classes_checked"] = count
    return findings, hits, cov
