"""C11: real-time processing keeps channels isolated and its state complete."""
import ast
from ..core import Finding
from ..driver import Entry
from ..interp import Hook
from ..program import AnalysisBroken
from ..summary import sweep
from ..facts import coverage

EXPLANATION = """Every class with process_sample or process_block is interpreted abstractly, nested filters included (all
implementations where a member may be any real-time filter). The per-stream state is what processing changes: arrays
reachable from the receiver that are written, and fields that are assigned. (a) With a channel parameter, every read and
write of such an array must select the channel itself (the unmodified parameter, its position the same in every access
of the class), no such array may be used as a whole, and no other field may be assigned. (b) Every piece of state must be
reinitialised by reset_state and by set_n_channels (prepare where set_n_channels is not supported): replaced by a fresh
array or zeroed as a whole, on every path of the method, independent of the previous contents, and with a size that
depends on the requested number of channels. State of nested filters has to be reached by the same methods."""
ASSUMPTIONS = ["a nested filter that is reset only under a condition is used only under the same condition",
               "the position in a circular buffer is immaterial while the buffer contains only zeros"]
MINIMUM = {"process_methods": 12, "state_fields": 30, "state_accesses_checked": 60, "reset_methods": 22}

# positions in circular buffers, immaterial once the buffer is zeroed
POSITIONS = {"current_state_ind": "state", "buffer_ind": "buffer_spectra"}
PROCESS = ("process_sample", "process_block")

SELFCHECK = '''
from __future__ import annotations
import numpy as np

class _Base:
    pass

class bad_fixed_channel(_Base):
    def __init__(self):
        self.set_n_channels(1)
    def set_n_channels(self, n_channels: int):
        self.state = np.zeros((2, n_channels))
    def reset_state(self):
        self.state.fill(0.0)
    def process_sample(self, x: float, channel: int):
        y = x + self.state[0, channel]
        self.state[0, 0] = y
        return y

class bad_scalar(_Base):
    def __init__(self):
        self.set_n_channels(1)
    def set_n_channels(self, n_channels: int):
        self.last = 0.0
    def reset_state(self):
        self.last = 0.0
    def process_sample(self, x: float, channel: int):
        y = x + self.last
        self.last = y
        return y

class bad_incomplete(_Base):
    def __init__(self):
        self.set_n_channels(1)
    def set_n_channels(self, n_channels: int):
        self.a = np.zeros(n_channels)
        self.b = np.zeros(n_channels)
    def reset_state(self):
        self.a.fill(0.0)
    def process_sample(self, x: float, channel: int):
        y = x + self.a[channel] + self.b[channel]
        self.a[channel], self.b[channel] = y, x
        return y

class bad_partial(_Base):
    def __init__(self):
        self.n = 0
        self.set_n_channels(1)
    def set_n_channels(self, n_channels: int):
        if n_channels != self.n:
            self.n = n_channels
            self.a = np.zeros(n_channels)
    def reset_state(self):
        self.a[:] = 0.0
    def process_sample(self, x: float, channel: int):
        y = x + self.a[channel]
        self.a[channel] = y
        return y

class bad_whole(_Base):
    def __init__(self):
        self.set_n_channels(1)
    def set_n_channels(self, n_channels: int):
        self.a = np.zeros(n_channels)
    def reset_state(self):
        self.a[:] = 0.0
    def process_sample(self, x: float, channel: int):
        y = x + np.sum(self.a)
        self.a[channel] = y
        return y

class bad_nested(_Base):
    def __init__(self, inner: good_plain):
        self.inner = inner
    def set_n_channels(self, n_channels: int):
        self.inner.set_n_channels(n_channels)
    def reset_state(self):
        pass
    def process_sample(self, x: float, channel: int):
        return self.inner.process_sample(x, channel)

class bad_slice(_Base):
    def __init__(self):
        self.set_n_channels(1)
    def set_n_channels(self, n_channels: int):
        self.a = np.zeros((8, n_channels))
    def reset_state(self):
        a = self.a[:4]
        a.fill(0.0)
    def process_sample(self, x: float, channel: int):
        y = x + self.a[7, channel]
        self.a[7, channel] = y
        return y

class good_loop(_Base):
    def __init__(self):
        self.set_n_channels(1)
    def set_n_channels(self, n_channels: int):
        self.a = np.zeros((8, n_channels))
        self.b = np.zeros((8, n_channels))
    def reset_state(self):
        for c in range(self.a.shape[1]):
            self.a[:, c] = 0.0
        for row in self.b:
            row.fill(0.0)
    def process_sample(self, x: float, channel: int):
        y = x + self.a[7, channel] + self.b[0, channel]
        self.a[7, channel] = y
        self.b[0, channel] = y
        return y

class good_plain(_Base):
    def __init__(self):
        self.set_n_channels(1)
    def _alloc(self, n):
        self.a = np.zeros((n, 3))
        self.count = np.zeros(n, dtype=int)
    def set_n_channels(self, n_channels: int):
        self._alloc(n_channels)
    def reset_state(self):
        self.a[...] = 0.0
        self._alloc(len(self.count))
    def process_sample(self, x: float, channel: int):
        row = self.a[channel]
        y = x + row @ np.ones(3)
        row[1:] = row[:-1]
        row[0] = y
        self.count[channel] += 1
        return y

class good_nested(_Base):
    def __init__(self, inner: list[good_plain]):
        self.inner = inner
    def set_n_channels(self, n_channels: int):
        [f.set_n_channels(n_channels) for f in self.inner]
    def reset_state(self):
        for f in self.inner:
            f.reset_state()
    def process_sample(self, x: float, channel: int):
        c = channel
        for f in self.inner:
            x = f.process_sample(x, channel=c)
        return x
'''
SELF_BAD = {"bad_fixed_channel", "bad_scalar", "bad_incomplete", "bad_partial", "bad_whole", "bad_nested", "bad_slice"}


def comps(idx):
    return list(idx[1]) if idx[0] == "multi" else [idx]


class H(Hook):
    def __init__(self):
        self.acc = []        # (origin path, kind of access, ok, position or None, line)
        self.assigned = []   # (origin path of object, field, line)
        self.resets = []     # (path, how)
        self.multi = {}
        self.zeroed, self.garbage = set(), set()     # sites of allocations

    def on_entry(self, ip, st, fi):
        self.mode, self.channel, self.count = ip.opt["c11"]

    def path(self, ip, ob):
        """field path from the receiver; members that may be of several
        classes are told apart by the class whose code touches them"""
        p = ob.origin[1:]
        own = p if ob.kind == "inst" else p[:-1]
        if own:
            n = self.multi.get(own)
            if n is None:
                n = self.multi[own] = len({k[1] for k in ip.initcache if k[0] == ("self",) + own and len(k) == 3
                                           and k[1] and k[1][0] == "inst"})
            if n > 1:
                for fr in reversed(ip.frames):
                    if fr.fi.cls is not None:
                        return own + ("<" + family(fr.fi.cls) + ">",) + p[len(own):]
        return p

    # ---- processing
    def chan(self, st):
        return ("p", (self.channel,)) if self.channel else None

    def sel(self, ip, c):
        """is this index component the channel itself?"""
        if c[0] == "slice":
            p = c[2][0] if len(c) > 2 else None
            return p is not None and getattr(p, "sym", None) == self.chan(None)
        if c[0] == "val":
            s = c[1].sym
            return s == self.chan(None) or (s is not None and s[0] == "call" and s[1] in ("int", "builtins.int")
                                            and s[2:] == (self.chan(None),))
        return False

    def on_index(self, ip, st, base, idx, node, store):
        if self.mode != "process":
            return
        cs = comps(idx)
        for o in base.objs:
            ob = ip.objs[o]
            if ob.origin is None or ob.origin[0] != "self" or ob.kind not in ("array", "list"):
                continue
            pos = [i for i, c in enumerate(cs) if self.sel(ip, c)]
            if pos:
                ell = any(c[0] == "val" and c[1].single_const() is not None and "Ellipsis" in str(c[1].single_const())
                          for c in cs)
                view = self.channel in base.deps
                self.acc.append((self.path(ip, ob), store, True, None if ell or view else (len(cs), pos[0]), ip.loc(node)))
            elif self.channel in base.deps:
                self.acc.append((self.path(ip, ob), store, True, None, ip.loc(node)))
            else:
                self.acc.append((self.path(ip, ob), store, False, None, ip.loc(node)))

    def whole(self, ip, st, vals, node):
        if self.mode != "process" or not self.channel:
            return
        for v in vals:
            for o in getattr(v, "objs", ()):
                ob = ip.objs[o]
                if ob.origin is not None and ob.origin[0] == "self" and ob.kind == "array" \
                        and self.channel not in v.deps:
                    self.acc.append((self.path(ip, ob), False, False, None, ip.loc(node)))

    def on_binop(self, ip, st, n, op, a, b):
        self.whole(ip, st, (a, b), n)

    def on_ext(self, ip, st, q, args, kwargs, n):
        if q in ("numpy.zeros", "numpy.zeros_like", "numpy.full", "numpy.full_like"):
            self.zeroed.add(id(n))
        elif q in ("numpy.empty", "numpy.empty_like", "numpy.ones", "numpy.ones_like"):
            self.garbage.add(id(n))
        if q in ("len", "builtins.len", "isinstance", "builtins.isinstance", "numpy.shape", "numpy.ndim", "hasattr",
                 "numpy.zeros_like", "numpy.empty_like"):
            return
        self.whole(ip, st, list(args) + list(kwargs.values() if isinstance(kwargs, dict) else ()), n)

    def on_mutate(self, ip, st, o, how, node):
        ob = o if not isinstance(o, int) else ip.objs[o]
        if ob.origin is None or ob.origin[0] != "self":
            return
        if self.mode == "process":
            if how == "setitem":
                self.assigned.append((self.path(ip, ob), None, ip.loc(node)))
                return
            ok = False
            if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name):
                v = st.env.get(node.target.id)
                ok = v is not None and self.channel in v.deps
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) \
                    and not isinstance(node.func.value, ast.Attribute):
                ok = isinstance(node.func.value, (ast.Name, ast.Subscript))
            self.assigned.append((self.path(ip, ob), None, ip.loc(node)))
            if not ok:
                self.acc.append((self.path(ip, ob), True, False, None, ip.loc(node)))
            return
        # resetting
        whole = zero = False
        fn = ip.frames[-1].fi.node if ip.frames else None
        if how == ".fill()":
            whole = not isinstance(getattr(node, "func", None), ast.Attribute) or _covers(fn, node.func.value)
            zero = _zero(node.args[0]) if getattr(node, "args", None) else True
        elif how == "setitem":
            t = None
            if isinstance(node, ast.Subscript):
                t = node
            if t is not None:
                whole = _full(t.slice) or _covers(fn, t)
                whole = whole and _covers(fn, t.value)
            zero = True
        elif how == "augassign" and isinstance(node, ast.AugAssign) and isinstance(node.op, ast.Mult):
            whole = zero = _zero(node.value) and _covers(fn, node.target)
        if whole and zero:
            self.resets.append((self.path(ip, ob), None, how))
            if len(ob.origin) == 2:
                st.tags = st.tags - {"dirty:" + ob.origin[1]}

    def on_store(self, ip, st, o, f, v, node):
        ob = o if not isinstance(o, int) else ip.objs[o]
        path = None
        if ob.origin is not None and ob.origin[0] == "self" and ob.kind == "inst":
            path = ob.origin[1:]
        if path is None:
            return
        if self.mode == "process":
            self.assigned.append((self.path(ip, ob), f, ip.loc(node)))
            return
        sized = True
        if self.mode == "set" and self.count:
            sized = self.count in v.deps or any(self.count in st.odeps.get(x, ()) for x in v.objs) \
                or self.count in ip.deps_of(v, st) or not _array(ip, v)
        old = any(x is not None and ip.objs[x].origin is not None for x in v.objs)
        sites = {id(ip.objs[x].site) for x in v.objs}
        garbage = bool(sites & self.garbage)
        stale = old or (".".join(("self",) + path + (f,)) in v.deps and not (sites and sites <= self.zeroed))
        if not sized:
            self.resets.append((self.path(ip, ob), f, "unsized"))
        if garbage or stale or not sized:
            return
        self.resets.append((self.path(ip, ob), f, "store"))
        if path == ():
            st.tags = st.tags - {"dirty:" + f}


def family(ci):
    """the topmost class that implements the processing ci inherits"""
    out = ci
    for c in ci.mro():
        if any(n in c.methods and not _stub(c.methods[n]) for n in PROCESS):
            out = c
    return out.name


def _array(ip, v):
    return any(ip.objs[x].kind in ("array", "list") for x in v.objs)


def _zero(n):
    try:
        return eval(compile(ast.Expression(n), "<literal>", "eval"), {"__builtins__": {}}) == 0 \
            if all(isinstance(x, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop))
                   for x in ast.walk(n)) else not any(isinstance(x, ast.Constant) for x in ast.walk(n))
    except Exception:
        return False


def _full(s):
    if isinstance(s, ast.Slice):
        return s.lower is None and s.upper is None
    if isinstance(s, ast.Constant):
        return s.value is Ellipsis
    if isinstance(s, ast.Tuple):
        return all(_full(x) for x in s.elts)
    return False


def _binding(fn, name):
    """what a local name of a function stands for: ("is", expr) or ("over", iterable)"""
    out = []
    for n in ast.walk(fn) if fn is not None else ():
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            out.append(("is", n.value))
        elif isinstance(n, (ast.For, ast.comprehension)) and any(
                isinstance(t, ast.Name) and t.id == name for t in ast.walk(n.target)):
            out.append(("over", n.iter))
    return out


def _covers(fn, e, depth=0):
    """does writing to `e` (repeated by the loops around it) reach the whole array
    it is part of? Only definite parts - a bounded slice, a fixed element, a range
    that does not start at zero - count as partial."""
    if depth > 6:
        return True
    if isinstance(e, ast.Name):
        return all(_covers(fn, x, depth + 1) for _, x in _binding(fn, e.id))
    if isinstance(e, ast.Subscript):
        return _covers(fn, e.value, depth + 1) and all(
            _covers_index(fn, c, depth + 1) for c in (e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        return _covers(fn, e.func.value, depth + 1)
    if isinstance(e, ast.Attribute) and e.attr in ("T", "real", "imag", "flat"):
        return e.attr not in ("real", "imag") and _covers(fn, e.value, depth + 1)
    return True


def _covers_index(fn, c, depth):
    if isinstance(c, ast.Slice):
        low = c.lower is None or isinstance(c.lower, ast.Constant) and c.lower.value in (0, None)
        step = c.step is None or isinstance(c.step, ast.Constant) and c.step.value in (1, -1, None)
        return low and c.upper is None and step
    if isinstance(c, ast.Constant):
        return c.value is Ellipsis or c.value is None
    if isinstance(c, ast.Name):
        b = _binding(fn, c.id)
        for kind, x in b:
            if kind == "is" and not _covers_index(fn, x, depth + 1):
                return False
            if kind == "over" and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "range" \
                    and len(x.args) > 1 and not (isinstance(x.args[0], ast.Constant) and x.args[0].value == 0):
                return False
        return bool(b) or depth > 6
    return True


def classes(prog):
    out = []
    for q in sorted(prog.classes):
        ci = prog.classes[q]
        ms = {}
        for c in ci.mro():
            for n, fi in c.methods.items():
                ms.setdefault(n, fi)
        if not any(n in ms for n in PROCESS):
            continue
        if all(_stub(ms[n]) for n in PROCESS if n in ms):
            continue
        out.append((ci, ms))
    return out


def _stub(fi):
    body = [s for s in fi.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Raise, ast.Pass)) for s in body)


def gather(prog, entry, res):
    ip, h = res.ip, res.ip.hooks[0]
    acc = {(o, w, ok, k, loc) for o, w, ok, k, loc in h.acc}
    asg = {(o + ((f,) if f is not None else ()), f, loc) for o, f, loc in h.assigned}
    rs = {(o + ((f,) if f is not None else ()), how) for o, f, how in h.resets}
    return dict(acc=sorted(acc, key=repr), assigned=sorted(asg, key=repr), resets=sorted(rs, key=repr),
                tags=sorted(res.state.tags) if res.state is not None else None, mode=h.mode)


def analyse(ctx):
    prog = ctx.prog
    groups, ents, jobs = [], [], []
    for ci, ms in classes(prog):
        own = {"ci": ci, "process": [], "reset": [], "set": []}
        for n in PROCESS:
            if n in ms and not _stub(ms[n]):
                own["process"].append(len(jobs))
                ch = next((p.name for p in ms[n].params if p.name == "channel"), None)
                if ch is None:
                    # second parameter after self, as the base class declares
                    ps = [p.name for p in ms[n].params][1:]
                    ch = ps[1] if len(ps) > 1 else None
                jobs.append((len(ents), None, dict(c11=("process", ch, None))))
                ents.append(Entry(ms[n], ci))
        dirty = frozenset("dirty:" + f for f in prog.fields(ci))
        if "reset_state" in ms and not _stub(ms["reset_state"]) or \
                "reset_state" in ms and any(isinstance(s, ast.Pass) for s in ms["reset_state"].node.body):
            own["reset"].append(len(jobs))
            jobs.append((len(ents), None, dict(c11=("reset", None, None), tags=dirty, loops_run=True)))
            ents.append(Entry(ms["reset_state"], ci))
        for n in sorted(ms):
            if n.startswith("_") or _stub(ms[n]) or ms[n].kind != "method":
                continue
            ps = [p.name for p in ms[n].params][1:]
            if n in ("set_n_channels", "prepare") or "n_channels" in ps:
                own["set"].append(len(jobs))
                cnt = "n_channels" if "n_channels" in ps else (ps[0] if n == "set_n_channels" and ps else None)
                jobs.append((len(ents), None, dict(c11=("set", None, cnt), tags=dirty, loops_run=True)))
                ents.append(Entry(ms[n], ci))
        groups.append(own)
    res = sweep(prog, ents, jobs, mkhooks=lambda: (H(),), extra=gather)
    bad = [s for _, s in res if isinstance(s, tuple)]
    if bad:
        raise AnalysisBroken(f"{bad[0][0]} not analysable: {bad[0][1]}\n{bad[0][2]}")
    return groups, ents, jobs, [s for _, s in res]


def fmt(path):
    return ".".join(p for p in path)


def judge(g, ents, jobs, sums):
    ci = g["ci"]
    out = []
    state = {}
    naccess = 0
    pos = {}
    for j in g["process"]:
        s = sums[j]
        x = s.extra
        ch = jobs[j][2]["c11"][1]
        arrays = {p for p, f, loc in x["assigned"] if f is None}
        for p, f, loc in x["assigned"]:
            state.setdefault(p, loc)
            if f is not None and ch is not None:
                out.append(Finding(f"{s.id}|shared|{fmt(p)}", loc,
                                   f"{s.id} assigns {fmt(p)}, which all channels share"))
        for o, store, ok, k, loc in x["acc"]:
            if o not in arrays or ch is None:
                continue
            naccess += 1
            if not ok:
                out.append(Finding(f"{s.id}|channel|{fmt(o)}|{'w' if store else 'r'}", loc,
                                   f"{s.id} {'writes' if store else 'reads'} state {fmt(o)} without selecting "
                                   f"its channel"))
            elif k is not None and len(o) == 1:
                pos.setdefault((o, k[0]), {}).setdefault(k[1], loc)
    for (p, _), ks in sorted(pos.items()):
        if len(ks) > 1:
            out.append(Finding(f"{ci.name}|axis|{fmt(p)}", sorted(ks.items())[1][1],
                               f"{ci.name} selects the channel of {fmt(p)} on different axes"))
    nreset = 0
    for role in ("reset", "set"):
        if not g[role]:
            if state:
                out.append(Finding(f"{ci.name}|no-{role}", "", f"{ci.name} has state but no method to {role} it"))
            continue
        for j in g[role]:
            nreset += 1
            s = sums[j]
            x = s.extra
            if x["tags"] is None:
                out.append(Finding(f"{s.id}|raises", s.loc, f"{s.id} never returns"))
                continue
            done = {p for p, how in x["resets"] if how != "unsized"}
            unsized = {p for p, how in x["resets"] if how == "unsized"}
            dirty = {t[6:] for t in x["tags"] if t.startswith("dirty:")}
            for p, loc in sorted(state.items()):
                if role == "reset" and p[-1] in POSITIONS and p[:-1] + (POSITIONS[p[-1]],) in done:
                    continue
                if p in unsized and p not in done:
                    out.append(Finding(f"{s.id}|size|{fmt(p)}", s.loc,
                                       f"{s.id} sets state {fmt(p)} without regard to the number of channels"))
                elif p not in done and not any(p[:k] in done for k in range(1, len(p))):
                    out.append(Finding(f"{s.id}|missing|{fmt(p)}", s.loc,
                                       f"{s.id} does not reinitialise {fmt(p)}, which processing changes at {loc}"))
                elif len(p) == 1 and p[0] in dirty:
                    out.append(Finding(f"{s.id}|path|{fmt(p)}", s.loc,
                                       f"{s.id} leaves {fmt(p)} as it is on some path"))
    return out, state, naccess, nreset


def run(ctx):
    groups, ents, jobs, sums = analyse(ctx)
    findings, hits = [], set()
    own = []
    cov = {"process_methods": 0, "state_fields": 0, "state_accesses_checked": 0, "reset_methods": 0}
    for g in groups:
        f, state, na, nr = judge(g, ents, jobs, sums)
        if g["ci"].module is ctx.selfmod:
            if f:
                hits.add(g["ci"].name)
            continue
        findings += f
        own += [sums[j] for j in g["process"] + g["reset"] + g["set"]]
        cov["process_methods"] += len(g["process"])
        cov["state_fields"] += len(state)
        cov["state_accesses_checked"] += na
        cov["reset_methods"] += nr
    c = coverage(own)
    c.update(cov)
    c["rule"] = "state accesses select the channel parameter; state changed by processing is reinitialised"
    return findings, hits, c
