"""C12: filtering block by block with stored states equals filtering the whole signal."""
import ast

from ..core import Finding
from ..driver import Entry, entries, alternatives, option_alternatives, alt_name
from ..facts import coverage
from ..interp import Hook
from ..program import AnalysisBroken, mangle
from ..summary import sweep
from ..values import V, E, ckey, NONE

EXPLANATION = """The fields holding filter states are those that the methods named initialize_zi change. Every public
operation with a parameter activate_zi is interpreted abstractly with it set, for every representation of the filter
(second-order sections, IIR and FIR coefficients), every kind of signal, every value of the other options, and for the
situations that a stored state fits the signal, is missing, or belongs to fewer or more channels. While interpreting, the
final state of every filtering call is tracked. With a fitting state: it is never reinitialised; every recursive filter is
called with an initial state that comes from the stored one; the final state of every call reaches the stored state on
every path; result and new state depend on the old state. Otherwise the state is initialised for the number of channels of
the signal before anything is filtered. Without activate_zi no operation changes a stored state. In the source of the
functions reached, the final state is written back to the very place the initial state was taken from, that place differs
between the iterations of every enclosing loop (followed through the callers), and nested lists that are updated in place
are not shared between channels or filters."""
ASSUMPTIONS = ["scipy.signal.sosfilt and lfilter return the final state that continues the stream when given the initial state",
               "the length of a list of states is compared with a number of channels of the signal being filtered",
               "values inside the states (lengths, scaling) are not decided"]
MINIMUM = {"stateful_operations": 5, "scenarios_with_filtering": 60, "filter_calls_checked": 150, "state_places_checked": 7,
           "operations_leaving_state_alone": 60}

STATEFUL = {"scipy.signal.sosfilt", "scipy.signal.lfilter"}
MEMORYLESS = {"scipy.signal.oaconvolve", "scipy.signal.convolve", "scipy.signal.fftconvolve", "numpy.convolve",
              "scipy.signal.filtfilt", "scipy.signal.sosfiltfilt", "scipy.signal.upfirdn", "scipy.signal.resample_poly",
              "scipy.signal.decimate", "scipy.ndimage.convolve1d", "scipy.signal.convolve2d"}
PARAM = "activate_zi"
LEN = "#length-of-state"
INIT = "initialize_zi"

SELFCHECK = '''
from __future__ import annotations
import numpy as np
import scipy.signal as sig
from .classes.signal import Signal


class _Base:
    def __init__(self, sos):
        self.sos = sos

    def initialize_zi(self, number_of_channels: int = 1):
        self.states = []
        for _ in range(number_of_channels):
            self.states.append(sig.sosfilt_zi(self.sos))
        return self


class good_filter(_Base):
    def filter_signal(self, signal: Signal, activate_zi: bool = False):
        td = signal.time_data.copy()
        if not activate_zi:
            return signal.copy_with_new_time_data(sig.sosfilt(self.sos, td, axis=0))
        if not hasattr(self, "states") or len(self.states) != signal.number_of_channels:
            self.initialize_zi(signal.number_of_channels)
        for ch in range(signal.number_of_channels):
            old = self.states[ch]
            td[:, ch], new = sig.sosfilt(self.sos, td[:, ch], zi=old)
            self.states[ch] = new
        return signal.copy_with_new_time_data(td)


class bad_not_stored(_Base):
    def filter_signal(self, signal: Signal, activate_zi: bool = False):
        td = signal.time_data.copy()
        if not activate_zi:
            return signal.copy_with_new_time_data(sig.sosfilt(self.sos, td, axis=0))
        if not hasattr(self, "states") or len(self.states) != signal.number_of_channels:
            self.initialize_zi(signal.number_of_channels)
        for ch in range(signal.number_of_channels):
            td[:, ch], new = sig.sosfilt(self.sos, td[:, ch], zi=self.states[ch])
            if np.all(np.isfinite(new)):
                self.states[ch] = new
        return signal.copy_with_new_time_data(td)


class bad_ignored(_Base):
    def filter_signal(self, signal: Signal, activate_zi: bool = False):
        td = sig.sosfilt(self.sos, signal.time_data, axis=0)
        return signal.copy_with_new_time_data(td)


class bad_restarts(_Base):
    def filter_signal(self, signal: Signal, activate_zi: bool = False):
        td = signal.time_data.copy()
        if not activate_zi:
            return signal.copy_with_new_time_data(sig.sosfilt(self.sos, td, axis=0))
        if not hasattr(self, "states") or len(self.states) >= signal.number_of_channels:
            self.initialize_zi(signal.number_of_channels)
        for ch in range(signal.number_of_channels):
            td[:, ch], self.states[ch] = sig.sosfilt(self.sos, td[:, ch], zi=self.states[ch])
        return signal.copy_with_new_time_data(td)


class bad_size(_Base):
    def filter_signal(self, signal: Signal, activate_zi: bool = False):
        td = signal.time_data.copy()
        if not activate_zi:
            return signal.copy_with_new_time_data(sig.sosfilt(self.sos, td, axis=0))
        if not hasattr(self, "states"):
            self.initialize_zi(signal.number_of_channels)
        for ch in range(signal.number_of_channels):
            td[:, ch], self.states[ch] = sig.sosfilt(self.sos, td[:, ch], zi=self.states[ch])
        return signal.copy_with_new_time_data(td)


class bad_place(_Base):
    def filter_signal(self, signal: Signal, activate_zi: bool = False):
        td = signal.time_data.copy()
        if not activate_zi:
            return signal.copy_with_new_time_data(sig.sosfilt(self.sos, td, axis=0))
        if not hasattr(self, "states") or len(self.states) != signal.number_of_channels:
            self.initialize_zi(signal.number_of_channels)
        for ch in range(signal.number_of_channels):
            td[:, ch], self.states[0] = sig.sosfilt(self.sos, td[:, ch], zi=self.states[0])
        return signal.copy_with_new_time_data(td)


class bad_swapped(_Base):
    def filter_signal(self, signal: Signal, activate_zi: bool = False):
        td = signal.time_data.copy()
        if not activate_zi:
            return signal.copy_with_new_time_data(sig.sosfilt(self.sos, td, axis=0))
        if not hasattr(self, "states") or len(self.states) != signal.number_of_channels:
            self.initialize_zi(signal.number_of_channels)
        for ch in range(signal.number_of_channels):
            td[:, ch], new = sig.sosfilt(self.sos, td[:, ch], zi=self.states[ch])
            self.states[ch - 1] = new
        return signal.copy_with_new_time_data(td)


class bad_disturbed(_Base):
    def filter_signal(self, signal: Signal, activate_zi: bool = False):
        td = signal.time_data.copy()
        if not hasattr(self, "states") or len(self.states) != signal.number_of_channels:
            self.initialize_zi(signal.number_of_channels)
        for ch in range(signal.number_of_channels):
            td[:, ch], self.states[ch] = sig.sosfilt(self.sos, td[:, ch], zi=self.states[ch])
        return signal.copy_with_new_time_data(td)


class bad_shared(_Base):
    def initialize_zi(self, number_of_channels: int = 1):
        self.pairs = [[sig.sosfilt_zi(self.sos), sig.sosfilt_zi(self.sos)]] * number_of_channels
        return self

    def filter_signal(self, signal: Signal, activate_zi: bool = False):
        td = signal.time_data.copy()
        if not activate_zi:
            return signal.copy_with_new_time_data(sig.sosfilt(self.sos, td, axis=0))
        if not hasattr(self, "pairs") or len(self.pairs) != signal.number_of_channels:
            self.initialize_zi(signal.number_of_channels)
        for ch in range(signal.number_of_channels):
            pair = self.pairs[ch]
            td[:, ch], pair[0] = sig.sosfilt(self.sos, td[:, ch], zi=pair[0])
            td[:, ch], pair[1] = sig.sosfilt(self.sos, td[:, ch], zi=pair[1])
        return signal.copy_with_new_time_data(td)
'''
SELF_BAD = {"bad_not_stored", "bad_ignored", "bad_restarts", "bad_size", "bad_place", "bad_swapped", "bad_disturbed",
            "bad_shared"}


def state_part(origin, fields):
    """name of the state field the object belongs to"""
    for x in origin or ():
        if str(x) in fields:
            return str(x)
    return None


class Watch(Hook):
    def __init__(self):
        self.events = {}        # (kind, site) -> (loc, text)
        self.sites = set()
        self.written = set()

    def note(self, ip, n, kind, text):
        fr = ip.frames[-1].fi if ip.frames else None
        self.events.setdefault((kind, fr.qualname if fr else "?"), (ip.loc(n), text))

    def on_entry(self, ip, st, fi):
        ip.watch = self

    def token(self, ip, n):
        return "zf@" + ip.loc(n)

    def state_in(self, ip, deps):
        f = ip.opt["state_fields"]
        return any(x in f for t in deps for x in t.split("."))

    def on_call(self, ip, st, fi, env, node):
        if fi.name == "is_fir" and fi.cls is not None and ip.opt.get("fir") is not None:
            return V(consts=frozenset([ckey(ip.opt["fir"])]))
        if fi.name == "is_iir" and fi.cls is not None and ip.opt.get("fir") is not None:
            return V(consts=frozenset([ckey(not ip.opt["fir"])]))
        if fi.name == INIT and fi.cls is not None and len(ip.frames) > 0:
            if ip.opt["scenario"] == "fits" or "unfit" not in st.tags:
                if ip.opt["scenario"] == "fits":
                    self.note(ip, node, "restart", "a stored state that fits the signal is initialised anew")
            else:
                ps = [p.name for p in fi.params[1:]]
                v = env.get(ps[0]) if ps else None
                d = ip.deps_of(v, st) if v is not None else E
                if v is None or not any(t.split(".")[0] in ip.opt["signals"] for t in d):
                    self.note(ip, node, "size", "the state is not initialised for the number of channels of the signal")
        return None

    def on_ext_result(self, ip, st, q, args, kwargs, n, r):
        if q in STATEFUL:
            self.sites.add(ip.loc(n))
            if "unfit" in st.tags:
                self.note(ip, n, "unfit", "filtered before the state is initialised for the signal")
            z = kwargs.get("zi")
            if z is None and len(args) > (3 if q.endswith("sosfilt") else 4):
                z = args[3 if q.endswith("sosfilt") else 4]
            if z is None or z.single_const() == NONE:
                self.note(ip, n, "stateless", "filtered without the stored state")
                return None
            if not self.state_in(ip, ip.deps_of(z, st, 6)) and ip.opt["scenario"] == "fits":
                self.note(ip, n, "foreign", "the initial state does not come from the stored state")
            t = self.token(ip, n)
            d = ip.deps_of(r, st)
            out = ip.alloc("tuple", n, st, "filtered")
            y = ip.alloc("array", n, st, "filtered.y")
            zf = ip.alloc("array", n, st, "filtered.zf")
            ip.taint(st, y, d)
            ip.taint(st, zf, d | frozenset([t]))
            ip.store_raw(st, out, "[0]", V(objs=frozenset([y]), deps=d))
            ip.store_raw(st, out, "[1]", V(objs=frozenset([zf]), deps=d | frozenset([t])))
            st.tags = st.tags | frozenset(["pending:" + t])
            return V(objs=frozenset([out]), deps=d)
        if q in MEMORYLESS:
            self.sites.add(ip.loc(n))
            if "unfit" in st.tags:
                self.note(ip, n, "unfit", "filtered before the state is initialised for the signal")
            t = self.token(ip, n)
            for o in r.objs:
                ip.taint(st, o, frozenset([t]))
            st.tags = st.tags | frozenset(["pending:" + t])
            return r.adddeps(frozenset([t]))
        return None

    def on_return(self, ip, st, fi, env, v):
        """a filtering helper that is given a state returns output and new state, both of which continue the stream"""
        if ip.opt["scenario"] != "fits" or fi.cls is not None or not v.objs:
            return
        given = [x for x in env.values() if x.single_const() != NONE and self.state_in(ip, ip.deps_of(x, st, 6)) and not any(
            ip.objs[o].kind == "inst" for o in x.objs)]
        if not given:
            return
        for o in v.objs:
            if ip.objs[o].kind != "tuple":
                return
            for i in (0, 1):
                x = st.heap.get((o, f"[{i}]"))
                d = ip.deps_of(x, st, 6) if x is not None else E
                if any(t.startswith("zf@") for t in d) and not self.state_in(ip, d):
                    self.events.setdefault(("forgets", fi.qualname), (
                        fi.loc, f"{fi.name}: {'the filtered signal' if i == 0 else 'the new state'} it returns does not depend on "
                        "the state it was given"))

    def settle(self, ip, st, v, field):
        d = ip.deps_of(v, st, 8)
        done = frozenset("pending:" + t for t in d if t.startswith("zf@"))
        if ip.opt["scenario"] == "fits" and done and not self.state_in(ip, d):
            self.note_field(ip, field)
        st.tags = st.tags - done

    def note_field(self, ip, field):
        fr = ip.frames[-1].fi
        self.events.setdefault(("forgets", fr.qualname), (ip.frames[-1].fi.loc, f"the new state stored in {field} does not depend on the old one"))

    def on_store(self, ip, st, o, field, v, node):
        fs = ip.opt["state_fields"]
        if o.kind == "inst" and field in fs:
            self.written.add(field)
            st.tags = st.tags - frozenset(["unfit"])
            self.settle(ip, st, v, field)
        elif state_part(o.origin, fs):
            self.settle(ip, st, v, state_part(o.origin, fs))

    def holder(self, ip, st, oids):
        fs = ip.opt["state_fields"]
        for (o, f), x in st.heap.items():
            if f in fs and x.objs & oids:
                return f
        return None

    def on_setitem(self, ip, st, base, idx, v, node):
        fs = ip.opt["state_fields"]
        for o in base.objs:
            f = state_part(ip.objs[o].origin, fs) or self.holder(ip, st, frozenset([o]))
            if f:
                self.written.add(f)
                self.settle(ip, st, v, f)

    def on_mutate(self, ip, st, o, how, node):
        fs = ip.opt["state_fields"]
        oid = next((i for i in range(len(ip.objs)) if ip.objs[i] is o), None) if how and "append" in how or \
            how and "extend" in how else None
        if oid is not None and (state_part(o.origin, fs) or self.holder(ip, st, frozenset([oid]))):
            st.tags = st.tags | frozenset(["grown"])

    def on_len(self, ip, st, v, n, r):
        fs = ip.opt["state_fields"]
        if v.objs and all(state_part(ip.objs[o].origin, fs) or self.holder(ip, st, frozenset([o])) for o in v.objs) and not any(
                len(ip.objs[o].origin or ()) and str(ip.objs[o].origin[-1]).startswith("[") for o in v.objs):
            return r.w(deps=r.deps | frozenset([LEN]))
        return None

    def decide(self, ip, st, n, op, a, b):
        fs = ip.opt["state_fields"]

        def field(v):
            s = v.sym
            return s is not None and s[0] == "p" and len(s[1]) > 1 and s[1][-1] in fs

        def length(v):
            return LEN in v.deps and not v.objs

        if op in ("is", "isnot", "==", "!=") and NONE in (a.single_const(), b.single_const()) and (field(a) or field(b)):
            return op in ("isnot", "!=")
        if not (length(a) or length(b)) or length(a) and length(b) or a.consts or b.consts:
            return None
        sc = ip.opt["scenario"]
        diff = 0 if "unfit" not in st.tags else {"fewer": -1, "more": 1}.get(sc, 0)
        if length(b):
            diff = -diff
        return {"==": diff == 0, "!=": diff != 0, "<": diff < 0, "<=": diff <= 0, ">": diff > 0, ">=": diff >= 0}.get(op)


def extra(prog, entry, res):
    ip, st = res.ip, res.state
    w = getattr(ip, "watch", None)
    if w is None:
        return None
    out = {"events": dict(w.events), "sites": sorted(w.sites), "written": sorted(w.written), "normal": st is not None,
           "pending": [], "uses": None}
    if st is not None:
        grown = set()
        if "grown" in st.tags:
            for (o, f), x in st.heap.items():
                if f in ip.opt["state_fields"]:
                    grown |= ip.deps_of(x, st, 8)
        out["pending"] = sorted(t[8:] for t in st.tags if t.startswith("pending:") and t[8:] not in grown)
        out["unfit"] = "unfit" in st.tags
        if res.value is not None:
            out["uses"] = w.state_in(ip, ip.deps_of(res.value, st, 10))
    return out


# ------------------------------------------------------------------ places of states in the source
def chain(e):
    """the expression is a chain of names, attributes and subscripts"""
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return isinstance(e, ast.Name)


class Expand(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        x = self.env.get(n.id)
        return x if isinstance(x, ast.AST) else n


def expand(e, env):
    import copy
    return Expand(env).visit(copy.deepcopy(e))


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


class Places(ast.NodeVisitor):
    """Follows names through one function in source order."""

    def __init__(self, fn):
        self.fn = fn
        self.env = {}           # name -> expression it stands for, or ("zf", call)
        self.loops = []
        self.calls = {}         # id(call) -> (call, expanded place of the initial state, loops, stored places)
        self.sites = []         # (call, names of loop targets around it, environment)
        self.visit_block(fn.body)

    def kill(self, t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                self.env.pop(x.id, None)
                for k in [k for k, v in self.env.items() if isinstance(v, ast.AST) and x.id in names(v)]:
                    self.env.pop(k)

    def visit_block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.exprs(s.iter)
            for sub in ast.walk(s):
                if isinstance(sub, ast.Name) and isinstance(sub.ctx, ast.Store):
                    # what is reassigned in the loop is not known at its start
                    self.env.pop(sub.id, None)
            self.loops.append(names(s.target))
            self.visit_block(s.body)
            self.loops.pop()
            self.visit_block(s.orelse)
            return
        if isinstance(s, ast.Assign):
            self.exprs(s.value)
            z = self.state_call(s.value)
            for t in s.targets:
                self.target(t, s.value, z)
            return
        for f in ("test", "value", "subject", "exc", "msg"):
            x = getattr(s, f, None)
            if isinstance(x, ast.expr):
                self.exprs(x)
        if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            self.kill(s.target)
            return
        if isinstance(s, (ast.If, ast.Try, ast.With, ast.While, ast.Match)):
            if isinstance(s, ast.With):
                for i in s.items:
                    self.exprs(i.context_expr)
            blocks = [b for b in (getattr(s, "body", None), getattr(s, "orelse", None), getattr(s, "finalbody", None)) if b]
            blocks += [h.body for h in getattr(s, "handlers", [])] + [c.body for c in getattr(s, "cases", [])]
            start = dict(self.env)
            ends = []
            for b in blocks:
                self.env = dict(start)
                self.visit_block(b)
                ends.append(self.env)
            if isinstance(s, ast.If) and not s.orelse or isinstance(s, (ast.While, ast.Match)):
                ends.append(start)
            keep = {}
            for k in set().union(*ends) if ends else ():
                vs = [e.get(k) for e in ends]
                # no state at all in the other branches
                vs = [v for v in vs if not isinstance(v, ast.Constant)] or vs
                # only one branch deals with states
                zs = [v for v in vs if isinstance(v, tuple)]
                if zs and all(v == zs[0] for v in zs):
                    keep[k] = zs[0]
                elif all(v is not None and not isinstance(v, tuple) and ast.dump(v) == ast.dump(vs[0]) for v in vs
                         if not isinstance(vs[0], tuple) and vs[0] is not None) and vs[0] is not None:
                    keep[k] = vs[0]
            self.env = keep

    def exprs(self, e):
        """calls outside of assignments, with their loops"""
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                inner = set()
                for y in ast.walk(e):
                    if isinstance(y, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and any(
                            z is x for z in ast.walk(y)):
                        for g in y.generators:
                            inner |= names(g.target)
                loops = list(self.loops) + ([inner] if inner else [])
                self.sites.append((x, loops, dict(self.env)))
                self.state_call(x, loops)

    def state_call(self, e, loops=None):
        """the call takes an initial state"""
        if not isinstance(e, ast.Call):
            return None
        z = next((k.value for k in e.keywords if k.arg == "zi"), None)
        if z is None or isinstance(z, ast.Constant) or not chain(z):
            return None
        if id(e) not in self.calls:
            self.calls[id(e)] = (e, expand(z, {k: v for k, v in self.env.items() if isinstance(v, ast.AST)}),
                                 loops if loops is not None else list(self.loops), [])
        return id(e)

    def target(self, t, value, z):
        if z is not None and isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2:
            self.one(t.elts[0], None)
            self.one(t.elts[1], ("zf", z))
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for a, b in zip(t.elts, value.elts):
                    self.one(a, self.known(b))
                return
            for a in t.elts:
                self.one(a, None)
            return
        self.one(t, self.known(value))

    def known(self, e):
        if isinstance(e, ast.Name):
            x = self.env.get(e.id)
            if x is not None:
                return x
        if isinstance(e, ast.Constant) and e.value is None:
            return e
        if chain(e):
            return expand(e, {k: v for k, v in self.env.items() if isinstance(v, ast.AST)})
        return None

    def one(self, t, what):
        if isinstance(t, ast.Name):
            self.kill(t)
            if what is not None and not (isinstance(what, ast.AST) and t.id in names(what)):
                self.env[t.id] = what
            return
        place = expand(t, {k: v for k, v in self.env.items() if isinstance(v, ast.AST)})
        if isinstance(what, tuple):
            self.calls[what[1]][3].append((place, t))


def plain(e):
    import re
    return re.sub(r"ctx=\w+\(\)", "ctx", ast.dump(e))


def base(e):
    while isinstance(e, ast.Subscript):
        e = e.value
    return e


def places(prog, fns, publics, findings):
    """the final state goes where the initial state came from, and no place is used for two iterations"""
    n = 0
    info = {f: Places(f.node) for f in fns}
    callers = {}
    for f, p in info.items():
        for c, loops, env in p.sites:
            fn = c.func
            nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
            if nm:
                callers.setdefault(nm, []).append((f, c, loops, env))

    def varies(f, place, loops, seen=(), depth=0):
        """-> None or the loop the place does not depend on, followed through the callers"""
        vs = names(place)
        for targets in loops:
            if not targets & vs:
                return f"{f.qualname.split('.')[-1]}: the same state is used in every iteration over {', '.join(sorted(targets))}"
        if f.name in publics and depth == 0 and f.name not in callers or depth > 4 or f in seen:
            return None
        params = {p.name: (i, p) for i, p in enumerate(f.params)}
        used = vs & set(params)
        for g, c, loops2, env in callers.get(f.name, []):
            if g is f:
                continue
            if f.cls is None and isinstance(c.func, ast.Attribute) and not isinstance(c.func.value, ast.Name):
                continue
            if f.cls is not None and not isinstance(c.func, ast.Attribute):
                continue
            bound = []
            method = f.cls is not None and f.kind == "method"
            if method and isinstance(c.func, ast.Attribute):
                if isinstance(c.func.value, ast.Call):
                    continue
                if f.params[0].name in used:
                    bound.append(c.func.value)
            for nm in used:
                i, p = params[nm]
                if method:
                    if i == 0:
                        continue
                    i -= 1
                a = next((k.value for k in c.keywords if k.arg == nm), None)
                if a is None and i < len(c.args):
                    a = c.args[i]
                if a is not None:
                    bound.append(a)
            e2 = {k: v for k, v in env.items() if isinstance(v, ast.AST)}
            tup = ast.Tuple([expand(b, e2) for b in bound], ast.Load())
            r = varies(g, tup, loops2, seen + (f,), depth + 1)
            if r:
                return r
        return None

    for f, p in info.items():
        for cid, (c, place, loops, stored) in p.calls.items():
            # the call of a helper of the package hands the whole state on
            n += 1
            txt = ast.unparse(place)
            ident = f"{f.qualname}|{ast.unparse(c.func)}|{txt}"
            for q, t in stored:
                if plain(q) != plain(place) and isinstance(q, ast.Subscript) and isinstance(place, ast.Subscript) and \
                        plain(base(q)) == plain(base(place)):
                    findings.append(Finding(f"place|{f.qualname}|{txt}|{ast.unparse(q)}".replace(" ", ""),
                                            f"{f.module.relpath}:{t.lineno}",
                                            f"{f.name}: the final state of the filter that starts from {txt} is stored in "
                                            f"{ast.unparse(q)}"))
            r = varies(f, place, loops)
            if r:
                findings.append(Finding(f"shared|{f.qualname}|{txt}".replace(" ", ""), f"{f.module.relpath}:{c.lineno}",
                                        f"{f.name}: {txt}: {r}"))
    return n


CONT = (ast.List, ast.Dict, ast.ListComp, ast.DictComp)


def shared_lists(prog, fns, fields, findings):
    """nested lists of states that are updated in place must be distinct objects"""
    n = 0
    for f in fns:
        n += 1
        own = {}
        depth = {}

        def scan(body, d):
            for s in body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    own[s.targets[0].id] = isinstance(s.value, CONT)
                    depth[s.targets[0].id] = d
                for b in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(s, b, None), list):
                        scan(getattr(s, b), d + (b == "body" and isinstance(s, (ast.For, ast.While))))
        scan(f.node.body, 0)

        def elem_container(e):
            return isinstance(e, CONT) or isinstance(e, ast.Name) and own.get(e.id)

        def bad(x, what):
            findings.append(Finding(f"aliased|{f.qualname}|{ast.unparse(x)}".replace(" ", ""),
                                    f"{f.module.relpath}:{x.lineno}", f"{f.name}: {what}: {ast.unparse(x)}"))

        def uses(body, d):
            for s in body:
                kids = [s] if not any(isinstance(getattr(s, b, None), list) for b in ("body", "orelse")) else \
                    [getattr(s, a) for a in ("test", "iter") if getattr(s, a, None) is not None]
                for k in kids:
                    for x in ast.walk(k):
                        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult):
                            for a in (x.left, x.right):
                                if isinstance(a, ast.List) and any(elem_container(e) for e in a.elts):
                                    bad(x, "the states of several channels or filters are the same list")
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "insert"):
                            for a in x.args:
                                if isinstance(a, ast.Name) and own.get(a.id) and depth.get(a.id, 0) < d:
                                    t = names(x.func.value)
                                    if all(depth.get(y, 0) < d or y == "self" for y in t):
                                        bad(x, "the same list is appended in every iteration")
                for b in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(s, b, None), list):
                        uses(getattr(s, b), d + (b == "body" and isinstance(s, (ast.For, ast.While))))
        uses(f.node.body, 0)
    return n


# ------------------------------------------------------------------ running
SCENARIOS = ("fits", "missing", "fewer", "more")


def run(ctx):
    prog = ctx.prog
    self_classes = [c for c in prog.classes.values() if c.module is ctx.selfmod]
    ents = entries(prog)
    for ci in self_classes:
        if not ci.name.startswith("_"):
            ents.append(Entry(ci.lookup("filter_signal")[1], ci))
    mine = {id(e): not (e.cls is not None and e.cls.module is ctx.selfmod) for e in ents}
    # fields that hold states
    inits = []
    for c in sorted(prog.classes.values(), key=lambda c: c.qualname):
        if INIT in c.methods:
            inits.append(Entry(c.methods[INIT], c))
    if not inits:
        raise AnalysisBroken(f"no method {INIT} found")
    fields, initfns = set(), set()
    for i, s in sweep(prog, inits, [(i, None, {}) for i in range(len(inits))]):
        if isinstance(s, tuple):
            raise AnalysisBroken(f"{s[0]}: {s[1]}")
        for path, f, cls, kinds, loc, ch in s.changed:
            if f.startswith("["):
                continue
            fields.add(f)
        initfns |= s.functions
    fields -= {"sos", "ba"}
    if not fields:
        raise AnalysisBroken("initialize_zi changes no field")
    ops = [e for e in ents if any(p.name == PARAM for p in e.fi.params)]
    jobs, what = [], []
    has_sos = any("_Filter__sos" in prog.fields(c) for c in prog.classes.values())
    if not has_sos:
        raise AnalysisBroken("field of the second-order sections not found")
    reps = [("sos", {"_Filter__sos": True}, None), ("iir", {"_Filter__sos": False}, False),
            ("fir", {"_Filter__sos": False}, True)]
    on = frozenset([("const", True)])
    for i, e in enumerate(ops):
        alts = alternatives(prog, e, ("ImpulseResponse",))
        sig = tuple(p.name for p in e.fi.params[1:] if p.name != PARAM)
        singles = [r for r in option_alternatives(prog, e, alts, pairwise=ctx.thorough) if PARAM not in r]
        own = mine[id(e)]
        flags = {p.name: frozenset([("const", p.default.value)]) for p in e.fi.params
                 if isinstance(p.default, ast.Constant) and isinstance(p.default.value, bool) and p.name != PARAM}

        def pin(r):
            return dict(flags, **(r or {}))
        variants = {}
        for r in list(alts):
            variants[repr(sorted(pin(r).items(), key=repr))] = (pin(r), True)
            for q in flags:
                if r is None or q not in r:
                    x = dict(pin(r), **{q: frozenset([("const", not next(iter(flags[q]))[1])])})
                    variants[repr(sorted(x.items(), key=repr))] = (x, True)
        for r in singles:
            variants.setdefault(repr(sorted(pin(r).items(), key=repr)), (pin(r), False))
        for rep, forced, fir in (reps if own else reps[:1]):
            for sc in SCENARIOS:
                for r, always in variants.values():
                    if not always and sc != "fits" and not ctx.thorough:
                        continue
                    r = dict(r, **{PARAM: on})
                    ff = dict(forced, **{f: sc != "missing" for f in fields})
                    jobs.append((i, r, {"state_fields": fields, "scenario": sc, "fir": fir, "forced_fields": ff, "signals": sig,
                                        "tags": [] if sc == "fits" else ["unfit"], "nonempty": True, "loops_run": True, "data_only": True,
                                        "shape_drop": sorted(fields)}))
                    what.append((e, rep, sc, alt_name({k: v for k, v in r.items() if k != PARAM and v != flags.get(k)}),
                                 ",".join(f"{k}={next(iter(v))[1]}" for k, v in sorted(r.items())
                                          if k in flags and v != flags[k])))
    findings, hits = [], set()
    summaries = []
    counts = {"stateful_operations": set(), "scenarios_with_filtering": 0, "filter_calls_checked": 0}
    reached = set(initfns)
    results = sweep(prog, ops, jobs, mkhooks=lambda: (Watch(),), extra=extra)
    supported = {}
    grouped = {}
    for (e, rep, sc, alt, flag), (i, s) in zip(what, results):
        if isinstance(s, tuple):
            raise AnalysisBroken(f"{s[0]}: {s[1]}\n{s[2]}")
        x = s.extra
        if x is None or not x["sites"]:
            continue
        if mine[id(e)]:
            summaries.append(s)
        supported.setdefault(e.id, set()).update([True] if x["normal"] else [])
        reached |= s.functions
        counts["scenarios_with_filtering"] += 1
        counts["filter_calls_checked"] += len(x["sites"])
        counts["stateful_operations"].add(e.id)
        found = [(k, loc, t) for (k, fn), (loc, t) in x["events"].items()]
        if x["normal"]:
            if sc == "fits":
                for p in x["pending"]:
                    found.append(("lost", p.split("@")[1], "the final state of the filter call is not stored on every path"))
                if x["uses"] is False:
                    found.append(("unused", s.loc, "the result does not depend on the stored state"))
                if not x["written"]:
                    found.append(("unchanged", s.loc, "the stored state is never updated"))
            elif x["unfit"] and not any(k == "unfit" for k, _, _ in found):
                found.append(("unfit", s.loc, "the state is not initialised for the signal"))
        else:
            # the variant is rejected
            found = []
        show = ", ".join(y for y in (rep if e.cls is not None and mine[id(e)] else "", {
            "fits": "", "missing": "no state stored", "fewer": "state of fewer channels", "more": "state of more channels"}[sc],
            alt) if y)
        for k, loc, t in found:
            if mine[id(e)]:
                grouped.setdefault((k, e.id, flag), (loc, t, []))[2].append(show)
            else:
                hits.add(e.cls.name)
    for (k, op, flag), (loc, t, shows) in sorted(grouped.items()):
        shows = [x for x in dict.fromkeys(shows) if x]
        more = f" and {len(shows) - 1} more situations" if len(shows) > 1 else ""
        findings.append(Finding(f"{k}|{op}|{flag}", loc, f"{op} with {PARAM}" + (f" and {flag}" if flag else "") + f": {t}"
                                + (f" ({shows[0]}{more})" if shows else "")))
    # without activate_zi states are left alone
    off = frozenset([("const", False)])
    jobs2, what2, ents2 = [], [], []
    for e in ents:
        if e.cls is None or e.fi.kind not in ("method", "getter") or e.fi.name in (INIT, "__init__"):
            continue
        allf = set(prog.fields(e.cls))
        if not any(set(prog.fields(c)) & fields for c in [e.cls] + list(e.cls.mro())) and not any(
                "Filter" in c.name for c in e.cls.mro()):
            continue
        par = [p.name for p in e.fi.params]
        r = {PARAM: off} if PARAM in par else None
        ents2.append(e)
        jobs2.append((len(ents2) - 1, r, {}))
        what2.append(e)
    alone = 0
    for e, (i, s) in zip(what2, sweep(prog, ents2, jobs2)):
        if isinstance(s, tuple):
            raise AnalysisBroken(f"{s[0]}: {s[1]}\n{s[2]}")
        if not s.normal:
            continue
        alone += 1
        for path, f, cls, kinds, loc, ch in s.changed:
            if f in fields or any(str(x) in fields for x in path):
                if mine[id(e)]:
                    findings.append(Finding(f"disturbed|{e.id}|{f}", loc, f"{e.id} changes the stored state {f}"
                                            + (f" without {PARAM}" if PARAM in [p.name for p in e.fi.params] else "")))
                else:
                    hits.add(e.cls.name)
    # places in the source
    byq = {f.qualname: f for f in prog.functions}
    fns = [byq[q] for q in sorted(reached) if q in byq]
    publics = {e.fi.name for e in ops}
    lf = []
    n_places = places(prog, [f for f in fns if f.module is not ctx.selfmod], publics, lf)
    shared_lists(prog, sorted({i.fi for i in inits if i.fi.module is not ctx.selfmod}, key=lambda f: f.qualname), fields, lf)
    findings += lf
    for ci in self_classes:
        lf = []
        own = [f for f in prog.functions if f.cls is ci]
        places(prog, own, publics, lf)
        shared_lists(prog, [f for f in own if f.name == INIT], fields, lf)
        if lf:
            hits.add(ci.name)
    cov = coverage(summaries)
    cov["stateful_operations"] = len([x for x in counts["stateful_operations"] if "_verif" not in x])
    cov["state_fields"] = len(fields)
    cov["scenarios_with_filtering"] = counts["scenarios_with_filtering"]
    cov["filter_calls_checked"] = counts["filter_calls_checked"]
    cov["state_places_checked"] = n_places
    cov["operations_leaving_state_alone"] = alone
    return findings, hits, cov
