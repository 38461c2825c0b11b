"""C07: every selectable option is supported or rejected, and options stay distinct."""
import hashlib
import json
import os
from collections import Counter

from ..core import Finding, VERIF
from ..driver import alternatives, param_types, alt_name, enum_entries
from ..effects import changed_fields
from ..facts import sweep_all, coverage
from ..interp import Hook, tok
from ..program import AnalysisBroken
from ..summary import sweep
from ..values import E, V, NONE

EXPLANATION = """For every parameter that selects among a closed set (an enumeration, or a string that the code compares with
literals) and for every option-holding field or setting that an operation reads, the operation is interpreted abstractly once
per member with everything else unchanged. The interpreter marks the result of each primitive operation; from the dependence
set of the outcome (returned value, changed fields, things plotted or written) the multiset of operations the outcome is made
of is read off, described by operation and origin of the operands and not by place in the source. Reported are: two members
with exactly the same computation; a member for which nothing of its own is computed although it used to (it falls through
to doing nothing); members whose computations were exchanged; a string that is no known option and is not rejected any more;
a supported member that no path supports any more. rules/c07_table.json holds the confirmed facts of the tree (documented
aliases, members that deliberately do nothing, constant values of the methods of the enumerations for every member)."""
ASSUMPTIONS = ["two members with different operations or operands are different; equal results by arithmetic identity are not seen",
               "enumerations with more than 12 members are sampled at operations (all of them in the thorough tier); their own "
               "methods are always evaluated for every member",
               "only one option is varied at a time"]
MINIMUM = {"option_variants": 900, "groups": 250, "members_of_enumerations_evaluated": 150}

SELFCHECK = '''
from __future__ import annotations
from enum import Enum, auto
import numpy as np
from numpy.typing import NDArray


class _Kind(Enum):
    A = auto()
    B = auto()
    C = auto()


def good_kinds(x: NDArray[np.float64], kind: _Kind):
    match kind:
        case _Kind.A:
            return np.abs(x)
        case _Kind.B:
            return np.abs(x) ** 2
        case _Kind.C:
            return np.angle(x)
        case _:
            raise ValueError("unknown")


def exchanged_kinds(x: NDArray[np.float64], kind: _Kind):
    if kind == _Kind.B:
        y = np.abs(x)
    elif kind == _Kind.A:
        y = np.abs(x)
        y = y**2
    else:
        y = np.angle(x)
    return y


def bad_same(x: NDArray[np.float64], kind: _Kind):
    if kind == _Kind.A:
        return np.abs(x)
    return np.angle(x)


def bad_nothing(x: NDArray[np.float64], kind: _Kind):
    y = np.exp(x)
    if kind == _Kind.A:
        y = y + x
    elif kind == _Kind.B:
        y = y / x
    return y


def good_string(x: NDArray[np.float64], how: str):
    if how == "up":
        return np.ceil(x)
    elif how == "down":
        return np.floor(x)
    raise ValueError("unknown")


def bad_string(x: NDArray[np.float64], how: str):
    if how == "up":
        return np.ceil(x)
    return np.floor(x)


def _long(x):
    y = np.exp(np.cumsum(np.sqrt(np.unwrap(x))))
    y = np.tanh(np.diff(np.log(np.sinc(y))))
    return np.cos(y) / np.sin(y)


def good_whole(x: NDArray[np.float64], kind: _Kind):
    if kind == _Kind.A:
        x = _long(x)
    elif kind == _Kind.B:
        x = np.abs(x)
    else:
        x = np.angle(x)
    return x


def lost_whole(x: NDArray[np.float64], kind: _Kind):
    if kind == _Kind.A:
        _long(x)
        x = np.floor(x)
    elif kind == _Kind.B:
        x = np.abs(x)
    else:
        x = np.angle(x)
    return x
'''
SELF_BAD = {"bad_same", "bad_nothing", "bad_string"}

TABLE = os.path.join(VERIF, "analyzer", "rules", "c07_table.json")
OTHER = "<other>"


def strip(t):
    """dependence token -> parameter.field"""
    return ".".join(t.split(".")[:2])


class Marker:
    """Numbers the primitive operations met while interpreting one option, described without their place in the source:
    the operation and the parameters or constants its operands come from."""

    def __init__(self, opt):
        self.param = opt.get("optparam", "?")
        self.shown = tok(("x", self.param)).split(".", 1)[1]
        self.ids = {}
        self.tokens = []
        self.strs = {}          # str parameter -> constants it is compared with
        self.fields = set()     # entries of settings dictionaries that are read

    def mark(self, ip, token, n):
        k = (token, ip.frames[-1].key if ip.frames else 0, id(n))
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = f"#{len(self.tokens)}"
            self.tokens.append(token)
        return i

    def own(self, t):
        return t == self.param or t.startswith(self.param + ".") or self.param[0] in "[_" and self.shown in t.split(".")

    def desc(self, ip, st, v):
        if v is None:
            return None
        if v.consts and not v.objs and not v.unk:
            cs = [c for c in v.consts if c[0] in ("c", "n")]
            if len(cs) == len(v.consts):
                return ("c",) + tuple(sorted((repr(c[-1]) for c in cs)))
        d = ip.deps_of(v, st, 4)
        kinds = tuple(sorted({ip.kind(o) for o in v.objs} & {"list", "tuple", "dict"}))
        if kinds == ("tuple",) and len(v.objs) == 1:
            o = next(iter(v.objs))
            kinds = tuple(consts(st.heap[(o, f)]) for f in sorted(ip.objs[o].fnames) if (o, f) in st.heap)
        return ("d",) + tuple(sorted({strip(t) for t in d if t[0] != "#" and not self.own(t)})) + kinds

    def t_op(self, ip, st, op, *vs):
        return ("op", op) + tuple(self.desc(ip, st, v) for v in vs)

    def note(self, v, cs):
        """constants with which a parameter of type str is compared"""
        d = {strip(t) for t in v.deps if t[0] not in "#<"}
        if len(d) == 1 and not v.consts:
            for c in cs:
                if c[0] == "c" and c[1] == "str":
                    self.strs.setdefault(next(iter(d)), set()).add(c[2])

    def t_match(self, c, v):
        self.note(v, [c])

    def t_cmp(self, ip, st, op, a, b):
        if self.strs is not None and op in ("==", "!=", "in", "notin"):
            if not b.consts and b.objs:
                self.note(a, ip.possible_consts(b, st) or ())
            else:
                self.note(a, b.consts)
                self.note(b, a.consts)
        for v in (a, b):
            if any(c[0] == "e" for c in v.consts):
                return None
            if any(self.own(t) for t in v.deps):
                return None
            for o in v.objs:
                if any(c[0] == "e" for f in ip.objs[o].fnames for c in getattr(st.heap.get((o, f)), "consts", ())):
                    return None
        return ("cmp", op, self.desc(ip, st, a), self.desc(ip, st, b))

    def t_call(self, ip, st, c, args, kwargs, f):
        if c[0] == "om":
            if ip.objs[c[1]].kind == "inst":
                return None
            name = "." + c[2]
            if name in (".copy", ".append", ".items", ".values", ".keys", ".lower", ".upper"):
                return None
            recv = (self.desc(ip, st, V(objs=frozenset([c[1]]), deps=f.deps)),)
        else:
            name, recv = c[1], ()
            if name in ("isinstance", "len", "range", "enumerate", "list", "tuple", "type", "hasattr", "super", "print",
                        "copy.deepcopy", "copy.copy", "warnings.warn", "str", "zip"):
                return None
        return ("call", name) + recv + tuple(self.desc(ip, st, a) for a in args) + tuple(
            (k, self.desc(ip, st, v)) for k, v in sorted(kwargs.items()) if k is not None)

    def idx(self, ip, st, i):
        if i[0] == "slice":
            return ("slice",) + tuple(self.desc(ip, st, v) for v in (i[2] if len(i) > 2 else ()))
        if i[0] == "multi":
            return ("multi",) + tuple(self.idx(ip, st, x) for x in i[1])
        if i[0] == "val":
            return self.desc(ip, st, i[1])
        return i[0]

    def t_index(self, ip, st, base, i, v=None):
        if base.objs and all(ip.kind(o) in ("dict", "inst") for o in base.objs):
            if i[0] == "val" and v is None:
                c = i[1].single_const()
                if c is not None and c[0] == "c":
                    self.fields.add(f"[{c[2]}]")
            return None
        return ("set" if v is not None else "get", self.desc(ip, st, base), self.idx(ip, st, i)) + (
            (self.desc(ip, st, v),) if v is not None else ())


GIVES = ("gives a result",)


def const(c):
    if c[0] in ("c", "n", "x", "b", "om"):
        return repr(c[-1])
    if c[0] == "e":
        return f"{c[1]}.{c[2]}"
    return next((x.qualname for x in c if hasattr(x, "qualname")), "?")


def consts(v):
    if v.consts and not v.objs and not v.unk:
        return tuple(sorted(map(const, v.consts)))
    return ()


def extra(prog, entry, res):
    """what the outcome is made of, independent of the place in the source: Counter of operations"""
    ip, st = res.ip, res.state
    if st is None or ip.marker is None:
        return None
    d = set(ip.sinks)
    out = Counter()
    seen = set()

    def content(path, v, depth=4):
        """constants and classes in what is handed out or stored"""
        out[("is", path) + consts(v)] += 1
        for o in sorted(v.objs):
            ob = ip.objs[o]
            if o in seen or depth == 0:
                continue
            seen.add(o)
            if ob.origin is not None:
                continue
            if ob.kind == "inst":
                out[("class", path, ob.cls.name)] += 1
            elif ob.kind == "func":
                out[("function", path, ob.types[0].name)] += 1
            elif ob.kind in ("list", "tuple"):
                out[("len", path, ob.kind, str(ip.known_len(o, st)))] += 1
            for f in sorted(ob.fnames):
                x = st.heap.get((o, f))
                if x is not None and f != "#mut" and (ob.kind in ("inst", "dict") or x.consts or x.objs):
                    content(path + (f,), x, depth - 1)
    if res.value is not None:
        d |= ip.deps_of(res.value, st, 8)
        content((), res.value)
        if res.value.objs or res.value.unk or any(c != NONE for c in res.value.consts):
            out[GIVES] = 1
    for oid, origin, f, v in changed_fields(res):
        d |= ip.deps_of(v, st, 8) | st.odeps.get(oid, frozenset())
        content((f,), v)
    for oid, dd in st.odeps.items():
        o = ip.objs[oid]
        if o.origin is not None and (o.kind in ("any", "callable") or (oid, "#mut") in st.heap):
            d |= dd
    for (oid, f) in st.heap:
        if f == "#mut" and ip.objs[oid].origin is not None:
            d |= st.odeps.get(oid, frozenset())
    so = getattr(ip, "self_oid", None)
    if so is not None and ip.objs[so].origin is None:
        d |= ip.deps_of(V(objs=frozenset([so])), st, 8)
        content(("self",), V(objs=frozenset([so])))
    for t in d:
        if t[0] == "#":
            out[ip.marker.tokens[int(t[1:])]] += 1
    return out


class Loads(Hook):
    def on_load(self, ip, st, o, f, node):
        if o.origin is not None and (o.origin, f) not in ip.marker_fields:
            v = st.heap.get((o.oid, f)) if (o.oid, f) in st.heap else ip.init_value(o.oid, f)
            es = {c[1] for c in v.consts if c[0] == "e"}
            if len(es) == 1 and len(v.consts) > 1:
                ip.marker_fields[(o.origin, f)] = next(iter(es))


def discover(prog, entry, res):
    m = res.ip.marker
    return {"strs": {k: sorted(v) for k, v in m.strs.items()}, "dict": sorted(m.fields),
            "fields": sorted({(f, e) for (_, f), e in res.ip.marker_fields.items()})}


def dict_options(prog):
    """entries of the settings dictionaries of signals which hold enumeration members"""
    out = {}
    for f in prog.functions:
        if f.cls is not None and f.name in ("set_spectrum_parameters", "set_spectrogram_parameters"):
            for p in f.params[1:]:
                for a in param_types(prog, f, p, f.cls):
                    if a[0] == "enum":
                        out[f"[{p.name}]"] = a[1]
    return out


BASE = {"_MultiBandSignal__bands": "Signal|ImpulseResponse"}
MANY = 13


def members(ci, every):
    ms = list(ci.members)
    if len(ms) > MANY and not every:
        ms = ms[::max(1, len(ms) // 5)]
    return [(m, frozenset([("member", ci.qualname, m)])) for m in ms]


def strings(cs):
    return [(c, frozenset([("const", c)])) for c in cs] + [(OTHER, frozenset([("const", "\x00other")]))]


def gather(ctx, every=False):
    """-> ([(entry, alternative, option, [(value, Counter, or None if rejected)], own)], plain summaries, variants)"""
    prog = ctx.prog
    opts = {"marker": Marker, "nonempty": True, "loops_run": True, "presets": BASE}
    own, selfs = sweep_all(ctx, extra=discover, mkhooks=lambda: (Loads(),), opts=opts, selfcheck=True)
    ents = list(ctx.ents) + list(ctx.selfents)
    byid = {}
    for s in own + selfs:
        byid.setdefault((s.id, s.alt), s)
    dopts = dict_options(prog)
    jobs, what = [], []
    for i, e in enumerate(ents):
        for r in alternatives(prog, e, ("ImpulseResponse",)):
            r = dict(r or {})
            s = byid.get((e.id, alt_name(r)))
            x = (s.extra if s is not None else None) or {"strs": {}, "dict": [], "fields": []}
            groups = []
            for k, p in enumerate(e.fi.params):
                if (k == 0 and e.fi.kind in ("method", "getter", "setter", "classmethod")) or p.kind in ("vararg", "kwarg") \
                        or p.name in r:
                    continue
                for a in sorted(param_types(prog, e.fi, p, e.cls), key=repr):
                    if a[0] == "enum":
                        groups.append((p.name, False, members(a[1], every)))
                    elif a[0] == "str" and x["strs"].get(p.name):
                        groups.append((p.name, False, strings(x["strs"][p.name])))
            for f, q in x["fields"]:
                if len(prog.classes[q].members) <= MANY or every:
                    groups.append((f, True, members(prog.classes[q], every)))
            for f in x["dict"]:
                if f in dopts and (len(dopts[f].members) <= MANY or every):
                    groups.append((f, True, members(dopts[f], every)))
            for name, preset, values in groups:
                g = (i, alt_name(r), name)
                for val, t in values:
                    kw = dict(opts, optparam=name, option=True)
                    if preset:
                        kw["presets"] = dict(BASE, **{name: t})
                        jobs.append((i, r, kw))
                    else:
                        if f"[{name}]" in dopts:
                            # settings kept from before are kept only if they are equal
                            kw["presets"] = dict(BASE, **{f"[{name}]": t})
                        jobs.append((i, dict(r, **{name: t}), kw))
                    what.append((g, val))
    out, order = {}, []
    failed = []
    for (g, val), (_, s) in zip(what, sweep(prog, ents, jobs, extra=extra)):
        if g not in out:
            out[g] = []
            order.append(g)
        if isinstance(s, tuple):
            failed.append(s)
        else:
            out[g].append((val, s.extra))
    if len(failed) > 0.02 * max(1, len(jobs)):
        raise AnalysisBroken(f"{len(failed)} of {len(jobs)} option variants not analysable\n{failed[0][2]}")
    n = len(ctx.ents)
    return [(ents[g[0]], g[1], g[2], out[g], g[0] < n) for g in order], own, len(jobs)


def enum_methods(ctx):
    """value of the methods of enumerations for every member (and for every member of enumerations they are given)"""
    prog = ctx.prog
    jobs, what = [], []
    ents = enum_entries(prog)
    for i, e in enumerate(ents):
        if e.fi.kind not in ("method", "getter"):
            continue
        others = []
        for p in e.fi.params[1:]:
            q = [a[1] for a in param_types(prog, e.fi, p, e.cls) if a[0] == "enum"]
            if len(q) == 1:
                others.append((p.name, q[0]))
        combos = [{}]
        for nm, q in others[:1]:
            combos = [{nm: frozenset([("member", q.qualname, m)])} for m in q.members]
        me = e.fi.params[0].name
        for m in e.cls.members:
            for c in combos:
                jobs.append((i, dict(c), {"marker": Marker, "optparam": me, "selfmember": m}))
                what.append((f"{e.cls.name}.{e.fi.name}", alt_name(c), m))
    out = {}
    for (q, alt, m), (i, s) in zip(what, sweep(prog, ents, jobs, extra=enum_extra)):
        if isinstance(s, tuple):
            raise AnalysisBroken(f"{q}: {s[1]}\n{s[2]}")
        out.setdefault((q, alt), (ents[i], {}))[1][m] = s.extra
    return out


def enum_extra(prog, entry, res):
    c = extra(prog, entry, res)
    return None if c is None else (consts(res.value) if res.value is not None else (), c)


def facts(values):
    """-> (rejected values, [pairs computed alike], values for which nothing of their own is computed)"""
    rej = [v for v, c in values if c is None]
    ok = [(v, c) for v, c in values if c is not None and v != OTHER]
    same = sorted(tuple(sorted((a, b))) for i, (a, x) in enumerate(ok) for b, y in ok[:i] if x == y)
    neutral = [v for v, c in ok if len(ok) > 1 and all(c <= y for w, y in ok if w != v)]
    return rej, same, neutral


def h(token):
    return hashlib.md5(repr(token).encode()).hexdigest()[:8]


def own_tokens(values):
    """value -> hashes of the operations which not all values have"""
    ok = {v: set(map(h, c)) for v, c in values if c is not None}
    if len(ok) < 2:
        return {}
    common = set.intersection(*ok.values())
    return {v: t - common for v, t in ok.items()}


def swapped(frozen, now):
    """[(A, B)]: what used to be computed for A and not for B is now computed for B and not for A"""
    out = []
    for a in sorted(frozen):
        for b in sorted(frozen):
            if a == b or a not in now or b not in now:
                continue
            fa = set(frozen[a]) - set(frozen[b])
            if fa and fa <= now[b] - now[a]:
                out.append((a, b))
    return out


def dropped(frozen, values):
    """options of which nearly every operation of their own is gone, from all options, and nothing else has come instead"""
    now = own_tokens(values)
    every = {h(x) for _, c in values if c is not None for x in c}
    out = []
    for v in sorted(frozen):
        f = set(frozen[v])
        if v in now and len(f) >= 8 and len(now[v]) <= len(f) / 4 and len(f & every) <= len(f) / 4:
            out.append(v)
    return out


def gkey(e, alt, opt):
    return f"{e.id}[{alt}]|{opt}"


def load():
    with open(TABLE, encoding="utf-8") as fh:
        return json.load(fh)


def entry_of(values):
    """what is remembered of a group"""
    rej, same, neu = facts(values)
    return {"values": sorted(v for v, _ in values), "rejected": sorted(rej), "same": [list(x) for x in same],
            "neutral": sorted(neu), "gives": sorted(v for v, c in values if c and GIVES in c), "own": {v: sorted(t) for v, t in own_tokens(values).items()}}


def whole(e):
    """no member differs from another"""
    n = len([v for v in e["values"] if v not in e["rejected"] and v != OTHER])
    return n > 1 and len(e["same"]) == n * (n - 1) // 2


def show(alt):
    return f" for {alt}" if alt else ""


def judge(key, values, frozen, loc, ident):
    """findings of one group; frozen: the confirmed facts, or None for an operation or option that did not exist"""
    now = entry_of(values)
    out = []
    if frozen is None:
        if not whole(now):
            for a, b in now["same"]:
                out.append(Finding(f"same|{key}|{a}|{b}", loc, f"{ident}: {a} and {b} are computed in exactly the same way"))
        return out
    if whole(frozen) and not frozen["neutral"]:
        return out
    known = set(frozen["values"])
    same = {tuple(x) for x in frozen["same"]}
    for a, b in map(tuple, now["same"]):
        if (a, b) not in same and a in known and b in known:
            out.append(Finding(f"same|{key}|{a}|{b}", loc, f"{ident}: {a} and {b} are computed in exactly the same way"))
    if not any(f.key.startswith("same|") for f in out):
        for v in now["neutral"]:
            if v in known and v not in frozen["neutral"] and v not in frozen["rejected"]:
                out.append(Finding(f"nothing|{key}|{v}", loc,
                                   f"{ident}: nothing is computed for {v} that is not computed for every other option"))
    for v in frozen["rejected"]:
        if v == OTHER and v in now["values"] and v not in now["rejected"]:
            out.append(Finding(f"unknown|{key}", loc, f"{ident}: a value that is no option is not rejected"))
    for v in now["rejected"]:
        if v != OTHER and v in known and v not in frozen["rejected"]:
            out.append(Finding(f"rejected|{key}|{v}", loc, f"{ident}: {v} is not supported any more (no path returns)"))
    for v in frozen.get("gives", ()):
        if v in now["values"] and v not in now["rejected"] and v not in now["gives"]:
            out.append(Finding(f"result|{key}|{v}", loc, f"{ident}: no result for {v} any more (None)"))
    for a, b in swapped(frozen["own"], own_tokens(values)):
        out.append(Finding(f"swapped|{key}|{a}|{b}", loc, f"{ident}: what was computed for {a} is now computed for {b}"))
    if not out:
        for v in dropped(frozen["own"], values):
            out.append(Finding(f"dropped|{key}|{v}", loc,
                               f"{ident}: what is computed for {v} does not reach the outcome of any option any more"))
    return out


def run(ctx):
    table = load()
    groups, own, n = gather(ctx, ctx.thorough)
    findings, hits, selfown, selfvals = [], set(), {}, {}
    keys = set()
    for e, alt, opt, values, mine in groups:
        k = gkey(e, alt, opt)
        if not mine:
            full = {"values": [v for v, _ in values], "rejected": [OTHER], "same": [], "neutral": [], "own": {}}
            if judge(k, values, full, e.fi.loc, k):
                hits.add(e.fi.name)
            selfown[e.fi.name] = own_tokens(values)
            selfvals[e.fi.name] = values
            continue
        keys.add(k)
        findings += judge(k, values, table["groups"].get(k), e.fi.loc, f"{e.id}: {opt}{show(alt)}")
    if not swapped(selfown.get("good_kinds", {}), selfown.get("exchanged_kinds", {})):
        raise AnalysisBroken("exchanged options of the example are not recognised")
    whole_own = selfown.get("good_whole", {})
    if dropped(whole_own, selfvals.get("lost_whole", ())) != ["A"] or dropped(whole_own, selfvals.get("good_whole", ())):
        raise AnalysisBroken("a dropped result of the example is not recognised")
    lost = [k for k, x in table["groups"].items() if k not in keys and (ctx.thorough or not x.get("thorough"))]
    for k in lost[:8]:
        print(f"note: group of the table not found: {k}")
    if len(lost) > 0.1 * len(table["groups"]):
        raise AnalysisBroken(f"{len(lost)} of {len(table['groups'])} confirmed groups not found")
    em = enum_methods(ctx)
    count = 0
    for (q, alt), (e, d) in em.items():
        k = f"{q}[{alt}]"
        count += len(d)
        fr = table["enums"].get(k)
        vals = [(m, x[1] if x is not None else None) for m, x in sorted(d.items())]
        if fr is None:
            continue
        for m, x in sorted(d.items()):
            c = list(x[0]) if x is not None else None
            f = fr["constants"].get(m)
            if f and c and f != c:
                findings.append(Finding(f"value|{k}|{m}", e.fi.loc, f"{q}{show(alt)}: {', '.join(c)} for {m}, was {', '.join(f)}"))
        findings += [f for f in judge(k, vals, fr, e.fi.loc, f"{q}{show(alt)}")]
    cov = coverage(own)
    cov["option_variants"] = n
    cov["groups"] = len(keys)
    cov["members_of_enumerations_evaluated"] = count
    return findings, hits, cov
