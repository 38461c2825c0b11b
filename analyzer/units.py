"""Physical units by abstract interpretation of the syntax tree.

Every expression gets a unit: a quantity with exponents of seconds and metres and
a decimal scale (seconds 1; milliseconds 1, scale -3; hertz -1; samples and pure
numbers 0), a level in dB, a level already divided by 10 or 20, amplitude-like or
power-like samples, linear or power gains, angles in degrees or radians, a
constant (compatible with everything), or nothing (unknown).  Package functions
are entered with the units of their arguments; only disagreements between two
known units are reported."""
from __future__ import annotations
import ast
import itertools
import math
import re
from fractions import Fraction as Fr

from .program import PKG

MAXDEPTH = 6


class U:
    __slots__ = ("k", "s", "m", "sc", "val")

    def __init__(self, k, s=0, m=0, sc=0, val=None):
        self.k, self.s, self.m, self.sc, self.val = k, s, m, sc, val

    def key(self):
        v = self.val
        if self.k == "tuple":
            v = tuple(x.key() if x is not None else None for x in v)
        elif self.k == "c" and not isinstance(v, (int, float, str, bool, type(None))):
            v = repr(v)
        elif self.k == "fn":
            v = id(v[0])
        return (self.k, self.s, self.m, self.sc, type(v).__name__, v)

    def __eq__(self, o):
        return isinstance(o, U) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.text()

    def text(self):
        if self.k != "q":
            return {"db": "dB", "field": "amplitude-like samples", "power": "power-like samples",
                    "gf": "a linear amplitude gain", "gp": "a power gain", "lin": "a linear value",
                    "deg": "degrees", "rad": "radians", "lf": "the logarithm of an amplitude",
                    "lp": "the logarithm of a power"}.get(self.k, self.k)
        n = {(1, 0): "seconds", (-1, 0): "hertz", (0, 0): "a number (of samples)", (0, 1): "metres",
             (-1, 1): "metres per second"}.get((self.s, self.m), f"s^{self.s} m^{self.m}")
        if self.sc:
            if (self.s, self.m, self.sc) == (1, 0, -3):
                return "milliseconds"
            if (self.s, self.m, self.sc) == (0, 0, -2):
                return "percent"
            n += f" scaled by 1e{self.sc}"
        return n


FS = U("q", -1, val="fs")          # a sampling rate: also the number of samples of one second
SEC, HZ, NUM, MET = U("q", 1), U("q", -1), U("q", 0), U("q", 0, 1)
MS, PCT = U("q", 1, 0, -3), U("q", 0, 0, -2)
DB, FIELD, POWER, GF, GP, LIN, DEG, RAD = (U(k) for k in ("db", "field", "power", "gf", "gp", "lin", "deg", "rad"))
LF, LP, LOG = U("lf"), U("lp"), U("log")
POLY = U("c")
SCALED = U("q", 0, val="scaled")   # a pure number times a power of ten: samples, percent, ...
LEVEL = {"db"}
LINEAR = {"field", "power", "gf", "gp", "lin"}

SUFFIX = {"s": SEC, "seconds": SEC, "ms": MS, "milliseconds": MS, "hz": HZ, "samples": NUM, "sample": NUM, "db": DB, "dbfs": DB,
          "percent": PCT, "degrees": DEG, "deg": DEG, "radians": RAD, "rad": RAD}
EXACT = {"coordinates_m": MET, "dimensions_m": MET, "critical_distance_m": MET, "distance_m": MET,
         "speed_of_sound": U("q", -1, 1), "time_data": FIELD, "fs": FS, "sampling_rate": FS, "fs_hz": FS,
         "number_of_channels": NUM, "number_of_bands": NUM, "number_of_filters": NUM,
         "freqs": HZ, "frequencies": HZ, "f_vec": HZ, "delta_f": HZ, "time_vector": SEC, "frequency_vector": HZ, "inp": FIELD,
         "spectral_data": FIELD, "distortion_level_linear": LIN, "gain_linear": LIN, "threshold_linear": LIN, "offset_linear": LIN}
NOT_UNITS = {"a_s", "b_s", "f_s", "noise_s", "range_rad_s", "frequency_0_db", "compress_in_db", "n_s", "x_s", "k_s",
             "to_db", "from_db", "he_to_hz", "s", "ms", "hz"}
# words that make a local variable ending in _s one in seconds
TIMEWORDS = {"time", "times", "length", "lengths", "delay", "delays", "duration", "window", "start", "stop", "end", "offset", "gd",
             "period", "block", "t60", "t", "latency", "step", "hop", "itd", "attack", "release", "mixing", "total", "td", "use"}
WEAK = {"power": POWER, "squared": POWER, "rms": FIELD}      # used where nothing is computed, never required
PARAM = {"td": FIELD, "phase": RAD, "ph": RAD, "f": HZ}       # parameters of unknown unit, never required
FLAGNAMES = {"x", "time_data"}
FLAGWORDS = {"in", "is", "to", "as", "has", "use"}


def name_unit(name, fn=False):
    n = name.strip("_")
    if n in NOT_UNITS:
        return None
    if n in EXACT and not fn:
        return EXACT[n]
    if n.endswith("sampling_rate_hz") and not fn:
        return FS
    parts = n.lower().split("_")
    if len(parts) < 2:
        return None
    if not fn and parts[-2] in FLAGWORDS:
        return None
    if fn and not (parts[0] in ("get", "compute", "find", "estimate")
                   or parts[-2] == "in" and parts[-1] in ("samples", "seconds", "hz")):
        return None
    return SUFFIX.get(parts[-1])


def local_unit(name):
    """unit of a local variable: nobody promises what the last letter of its name means"""
    u = name_unit(name)
    n = name.strip("_").lower()
    if u is SEC and n.endswith("_s") and not set(n.split("_")[:-1]) & TIMEWORDS:
        return None
    return u


def weak_unit(name):
    return WEAK.get(name.lower().strip("_").rsplit("_", 1)[-1]) if "_" in name.strip("_") else None


DOCWORD = {"s": SEC, "seconds": SEC, "ms": MS, "milliseconds": MS, "Hz": HZ, "dB": DB, "dBFS": DB, "samples": NUM,
           "radians": RAD, "degrees": DEG, "percent": PCT}
DOCRE = re.compile(r"\b[iI]n (seconds|s|ms|milliseconds|Hz|dB|dBFS|samples|radians|degrees|percent)\b")


def doc_units(node):
    """units promised by the docstring: {parameter: U}, [result units]"""
    doc = ast.get_docstring(node, clean=True) if isinstance(node, ast.FunctionDef) else None
    if not doc:
        return {}, []
    out, rets, sec, cur = {}, [], None, None
    lines = doc.split("\n")
    items = []
    for i, ln in enumerate(lines):
        if i + 1 < len(lines) and set(lines[i + 1].strip()) == {"-"} and len(lines[i + 1].strip()) > 2:
            sec, cur = ln.strip(), None
            continue
        if sec not in ("Parameters", "Returns") or not ln.strip() or set(ln.strip()) == {"-"}:
            continue
        if not ln.startswith(" "):
            name, _, typ = ln.partition(":")
            cur = [sec, [x.strip() for x in name.split(",")], typ.strip(), ""]
            items.append(cur)
        elif cur is not None:
            cur[3] += " " + ln.strip()
    for sec, names, typ, text in items:
        first = re.split(r"\.(?:\s|$)", text.strip(), maxsplit=1)[0]
        m = DOCRE.findall(first)
        u = DOCWORD[m[0]] if len(set(m)) == 1 else None
        if u is not None and (re.search(r"\bor\b|\bwhen\b|\bif\b", first, re.I) or "bool" in typ or "str" in typ
                              or "dict" in typ or "callable" in typ.lower() or "Signal" in typ or "Spectrum" in typ):
            u = None
        if sec == "Parameters":
            for nm in names:
                if u is not None and nm.isidentifier():
                    out[nm] = u
        else:
            rets.append(u)
    return out, rets


def is_q(u):
    return u is not None and u.k == "q"


def dimless(u):
    return u.k == "q" and u.s == 0 and u.m == 0


def mismatch(a, b):
    """True when two known units cannot be added, compared or substituted"""
    if a is None or b is None:
        return False
    ka, kb = a.k, b.k
    skip = {"c", "tuple", "fn", "dbn", "log", "lf", "lp", "lq", "shape", "seq"}
    if ka in skip or kb in skip:
        return False
    if ka == "q" and kb == "q":
        if "loose" in (a.val, b.val):
            return (a.s, a.m) == (b.s, b.m) and a.sc != b.sc
        if "scaled" in (a.val, b.val) and dimless(a) and dimless(b):
            return False
        if "fs" in (a.val, b.val) and (dimless(a) and not a.sc or dimless(b) and not b.sc):
            return False
        return (a.s, a.m, a.sc) != (b.s, b.m, b.sc)
    if ka == kb:
        return False
    if kb == "q":
        a, b, ka, kb = b, a, kb, ka
    if ka == "q" and a.val == "loose":
        return False
    if ka == "q":
        if kb in LEVEL or kb in LINEAR or kb in ("deg", "rad"):
            return not dimless(a) or (a.sc != 0)
        return False
    if "db" in (ka, kb):
        return (ka in LINEAR or kb in LINEAR or "deg" in (ka, kb) or "rad" in (ka, kb))
    if {ka, kb} == {"deg", "rad"}:
        return True
    if {ka, kb} in ({"gf", "gp"}, {"field", "gp"}, {"power", "gf"}, {"field", "power"}):
        return True
    return False


def join(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    for x, y in ((a, b), (b, a)):
        if x.k == "tuple" and not x.val:        # a list that is still empty
            return y
    if a.k == b.k == "q" and (a.s, a.m, a.sc) == (b.s, b.m, b.sc):
        return U("q", a.s, a.m, a.sc)
    if a.k == "tuple" and b.k == "tuple" and len(a.val) == len(b.val):
        return U("tuple", val=tuple(join(x, y) for x, y in zip(a.val, b.val)))
    if a.k == "c" and b.k == "c":
        return POLY
    if a.k == "c":
        return b
    if b.k == "c":
        return a
    return None


class Found:
    def __init__(self, rule, fi, node, msg, chain):
        self.rule, self.fi, self.node, self.msg, self.chain = rule, fi, node, msg, chain


LABELS = {"s": SEC, "ms": MS, "Hz": HZ, "dB": DB, "rad": RAD}
STRUCT = {1.0, 2.0, 0.5, -1.0, -2.0, 4.0, 0.25, math.pi, 2 * math.pi, -math.pi, -2 * math.pi, math.pi / 2}
KEEP = set("""abs absolute fabs asarray array atleast_1d atleast_2d atleast_3d squeeze copy mean median sum nansum max
min amax amin nanmax nanmin nanmean sort unique diff flip flipud fliplr roll ravel reshape round around ceil floor
trunc rint real imag tile repeat conj conjugate expand_dims moveaxis swapaxes broadcast_to transpose ascontiguousarray
asfortranarray next_fast_len take average quantile percentile unwrap trim_zeros pad delete compress float64 nan_to_num cumsum
fftshift ifftshift real_if_close split array_split resize rot90 atleast""".split())
KEEPFN = {"_fractional_octave_smoothing", "_pad_trim", "_wrap_phase", "time_smoothing"}
KEEP_METHODS = set("""copy squeeze astype flatten ravel reshape transpose max min mean sum cumsum item tolist clip
round conj conjugate repeat take view swapaxes""".split())
COUNTS = set("""argmin argmax argwhere nonzero flatnonzero argsort count_nonzero searchsorted digitize size ndim
bincount""".split())
JOINERS = set("""concatenate hstack vstack append stack column_stack row_stack maximum minimum fmax fmin dstack
insert""".split())
TRIG = set("sin cos tan sinc".split())
EXPS = set("exp expm1 sinh cosh tanh log log2 log1p exp2".split())
DESIGN = {"butter": 1, "cheby1": 2, "cheby2": 2, "ellip": 3, "bessel": 1, "firwin": 1, "iirpeak": 0, "iirnotch": 0,
          "iircomb": 0, "firwin2": 1, "iirfilter": 1}
FILLERS = {"zeros", "ones", "empty", "zeros_like", "ones_like", "empty_like", "eye", "identity"}


class Frame:
    def __init__(self, fi, module, cls):
        self.fi, self.module, self.cls = fi, module, cls
        self.ret = []


class Units:
    def __init__(self, prog, deep=False):
        self.prog = prog
        self.deep = deep
        self.maxdepth = 12 if deep else MAXDEPTH
        self.found = {}
        self.memo = {}
        self.stack = []
        self.fields = {}            # (class qualname, field) -> U | None
        self.collect = None
        self._docs = {}
        self.sites = {"calls": set(), "sums": set(), "indices": set(), "stores": set(), "exponentials": set(),
                      "external": set()}
        self.known = set()
        bym = {}
        for ci in prog.classes.values():
            for n, f in ci.methods.items():
                bym.setdefault(n, []).append(f)
        self.bymeth = bym
        byg = {}
        for ci in prog.classes.values():
            for n, f in ci.getters.items():
                byg.setdefault(n, []).append(f)
        self.byget = byg
        self.cov_fns = set()

    # ------------------------------------------------------------- reporting
    def report(self, rule, node, msg, fr):
        chain = tuple(x[0].qualname for x in self.stack)
        key = (rule, fr.fi.qualname, ast.unparse(node)[:160])
        if key not in self.found or len(chain) < len(self.found[key].chain):
            self.found[key] = Found(rule, fr.fi, node, msg, chain)

    def site(self, kind, node, *us):
        self.sites[kind].add(id(node))
        if any(u is not None and u.k not in ("c", "tuple", "fn") for u in us):
            self.known.add(id(node))

    def expect(self, u, want, node, fr, rule, what):
        if mismatch(u, want) and {u.k, want.k} != {"field", "power"}:
            self.report(rule, node, f"{what} is {want.text()}, but gets {u.text()}", fr)

    # ------------------------------------------------------------- functions
    def docs(self, fi):
        if fi not in self._docs:
            self._docs[fi] = doc_units(fi.node)
        return self._docs[fi]

    def param_unit(self, fi, p):
        if p.kind in ("vararg", "kwarg"):
            return None
        u = name_unit(p.name)
        if u is None and p.name not in FLAGNAMES:
            node = fi.node
            u = self.docs(fi)[0].get(p.name)
            if u is None and fi.name == "__init__" and fi.cls is not None:
                u = None
        return u

    def result_unit(self, fi):
        if fi.kind == "getter":
            u = name_unit(fi.name)
            if u is not None:
                return u
        u = name_unit(fi.name, True)
        if u is None and fi.kind != "getter":
            r = self.docs(fi)[1]
            if len(r) == 1:
                u = r[0]
            elif len(r) > 1 and any(x is not None for x in r):
                u = U("tuple", val=tuple(r))
        return u

    def run_fn(self, fi, bound):
        """-> unit of the result; bound: param name -> U | None"""
        key = (fi, tuple(sorted((n, u.key() if u is not None else None) for n, u in bound.items())))
        if key in self.memo:
            return self.memo[key]
        if len(self.stack) >= self.maxdepth or any(x[0] is fi for x in self.stack):
            return self.result_unit(fi)
        if isinstance(fi.node, ast.Lambda):
            return None
        self.memo[key] = None
        self.cov_fns.add(fi)
        fr = Frame(fi, fi.module, fi.cls)
        env = {}
        for p in fi.params:
            u = self.param_unit(fi, p)
            b = bound.get(p.name)
            if b is not None and b.k == "c" and u is not None and b.val is None and b is not POLY:
                env[p.name] = b
            elif u is not None:
                env[p.name] = u
            else:
                env[p.name] = PARAM.get(p.name) if b is None else b
        self.stack.append((fi,))
        try:
            self.block(fi.node.body, env, fr)
        finally:
            self.stack.pop()
        want = self.result_unit(fi)
        r = None
        if fr.ret:
            r = fr.ret[0][0]
            for u, _ in fr.ret[1:]:
                r = join(r, u)
        if want is not None:
            for u, n in fr.ret:
                if want.k == "tuple":
                    if u is not None and u.k == "tuple" and len(u.val) == len(want.val):
                        for i, (x, w) in enumerate(zip(u.val, want.val)):
                            nn = n.elts[i] if isinstance(n, ast.Tuple) else n
                            if w is not None:
                                self.site("stores", nn, x)
                                self.expect(x, w, nn, fr, "result", f"result {i + 1} of {fi.name}")
                    continue
                if u is not None and u.k == "tuple":
                    continue
                self.site("stores", n, u)
                self.expect(u, want, n, fr, "result", f"the result of {fi.name}")
            if r is None or r.k == "c":
                r = want
            elif want.k == "tuple" and r.k == "tuple" and len(r.val) == len(want.val):
                r = U("tuple", val=tuple(w if x is None else x for x, w in zip(r.val, want.val)))
        self.memo[key] = r
        return r

    def bind(self, fi, args, kws, node, fr, selfcall):
        """args: [(U, node)], kws: {name: (U, node)}; checks against the
        parameters' names and returns param -> U"""
        ps = [p for p in fi.params]
        if fi.is_bound and ps and selfcall:
            ps = ps[1:]
        pos = [p for p in ps if p.kind == "pos"]
        bound = {}
        for i, (u, n) in enumerate(args):
            if i < len(pos):
                bound[pos[i].name] = (u, n)
        for k, un in kws.items():
            if any(p.name == k for p in ps):
                bound[k] = un
        out = {}
        # a sampling rate of 1: times are given in samples
        unit_rate = any(name_unit(k) is FS and u is not None and u.k == "c" and u.val == 1 for k, (u, n) in bound.items())
        for p in ps:
            if p.name in bound:
                u, n = bound[p.name]
                want = self.param_unit(fi, p)
                if unit_rate and want is SEC:
                    continue
                if want is not None:
                    self.site("calls", n, u)
                    self.expect(u, want, n, fr, "argument", f"{p.name} of {fi.qualname.replace(PKG + '.', '')}")
                out[p.name] = u
            elif p.default is not None and isinstance(p.default, ast.Constant):
                out[p.name] = U("c", val=p.default.value)
        return out

    def labels(self, fi, args, kws, fr):
        """plots: the label of an axis names the unit of what is drawn"""
        ps = [p.name for p in fi.params]
        have = dict(kws)
        for i, un in enumerate(args):
            if i < len(ps):
                have.setdefault(ps[i], un)
        for lab, data in (("xlabel", "x"), ("ylabel", "matrix"), ("y1label", "matrix1"), ("y2label", "matrix2"),
                          ("xlabel", "x1")):
            if data not in have or data not in ps or "matrix_plot" in fi.name:
                continue
            u, n = have[data]
            if lab in have:
                l = have[lab][0]
            else:
                d = next((p.default for p in fi.params if p.name == lab), None)
                l = U("c", val=d.value) if isinstance(d, ast.Constant) else None
            if l is None or l.k != "c" or not isinstance(l.val, str):
                continue
            m = re.search(r"(?:/ |\[)(s|ms|Hz|dB|rad)\]?$", l.val)
            if m is None:
                continue
            self.site("calls", n, u)
            self.expect(u, LABELS[m.group(1)], n, fr, "label", f"the axis labelled '{l.val}'")

    def call_fi(self, fi, args, kws, node, fr, selfcall):
        if fi.name.startswith("general_"):
            self.labels(fi, args, kws, fr)
        b = self.bind(fi, args, kws, node, fr, selfcall)
        if fi.name in KEEPFN and args:
            self.run_fn(fi, b)
            return self.flat(args[0][0])
        if any(_dec(d) == "abstractmethod" for d in fi.decorators):
            return self.result_unit(fi)
        return self.run_fn(fi, b)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env, fr):
        """-> False when the end is not reached"""
        for s in stmts:
            if self.stmt(s, env, fr) is False:
                return False
        return True

    def merge(self, env, outs):
        """join the environments of the branches that reach the end into env"""
        outs = [o for o in outs if o is not None]
        if not outs:
            return False
        names = set().union(*outs)
        new = {}
        for n in names:
            have = [o[n] for o in outs if n in o]
            u = have[0]
            for x in have[1:]:
                u = join(u, x)
            new[n] = u
        env.clear()
        env.update(new)
        return True

    def stmt(self, n, env, fr):
        t = type(n)
        if t is ast.Return:
            u = self.ev(n.value, env, fr) if n.value is not None else U("c", val=None)
            fr.ret.append((u, n.value if n.value is not None else n))
            return False
        if t is ast.Raise:
            return False
        if t in (ast.Continue, ast.Break):
            return False
        if t is ast.Assign:
            u = self.ev(n.value, env, fr)
            for tg in n.targets:
                self.assign(tg, u, n.value, env, fr)
        elif t is ast.AnnAssign:
            if n.value is not None:
                self.assign(n.target, self.ev(n.value, env, fr), n.value, env, fr)
        elif t is ast.AugAssign:
            cur = self.ev(n.target, env, fr)
            r = self.ev(n.value, env, fr)
            b = ast.copy_location(ast.BinOp(left=n.target, op=n.op, right=n.value), n)
            u = self.binop(b, n.op, cur, r, fr)
            if u is None and r is None and cur is not None and cur.k in ("field", "power", "db"):
                u = cur             # samples scaled or summed in place stay samples
            self.assign(n.target, u, n, env, fr, aug=True)
        elif t is ast.Expr:
            self.ev(n.value, env, fr)
        elif t is ast.If:
            c = self.truth(self.ev(n.test, env, fr))
            outs = []
            for body, val in ((n.body, True), (n.orelse, False)):
                if c is not None and c != val:
                    continue
                e = dict(env)
                self.narrow(n.test, val, e)
                outs.append(e if self.block(body, e, fr) is not False else None)
            return self.merge(env, outs)
        elif t in (ast.For, ast.AsyncFor):
            it = self.ev(n.iter, env, fr)
            for _ in range(2):
                e = dict(env)
                self.assign(n.target, self.elem(it), n.iter, e, fr, bindonly=True)
                ok = self.block(n.body, e, fr)
                self.merge(env, [dict(env), e])
            self.block(n.orelse, env, fr)
        elif t is ast.While:
            for _ in range(2):
                self.ev(n.test, env, fr)
                e = dict(env)
                self.block(n.body, e, fr)
                self.merge(env, [dict(env), e])
        elif t in (ast.With, ast.AsyncWith):
            for i in n.items:
                self.ev(i.context_expr, env, fr)
            return self.block(n.body, env, fr)
        elif t is ast.Try:
            e0 = dict(env)
            ok = self.block(n.body + n.orelse, env, fr)
            outs = [dict(env) if ok is not False else None]
            for h in n.handlers:
                e = dict(e0)
                for k in set(env) - set(e):
                    e[k] = None
                outs.append(e if self.block(h.body, e, fr) is not False else None)
            r = self.merge(env, outs)
            if self.block(n.finalbody, env, fr) is False:
                return False
            return r
        elif t is ast.Match:
            self.ev(n.subject, env, fr)
            outs = []
            full = False
            for c in n.cases:
                e = dict(env)
                if c.guard is not None:
                    self.ev(c.guard, e, fr)
                outs.append(e if self.block(c.body, e, fr) is not False else None)
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    full = True
            if not full:
                outs.append(dict(env))
            return self.merge(env, outs)
        elif t is ast.FunctionDef:
            env[n.name] = U("fn", val=(n, env))
        elif t is ast.Assert:
            self.ev(n.test, env, fr)
            self.narrow(n.test, True, env)
        elif t is ast.Delete:
            for x in n.targets:
                if isinstance(x, ast.Name):
                    env.pop(x.id, None)
        return True

    def narrow(self, test, val, env):
        """`x is None` known"""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isn = isinstance(test.ops[0], ast.Is)
            if isinstance(test.ops[0], (ast.Is, ast.IsNot)) and isn == val:
                env[test.left.id] = U("c", val=None)

    def assign(self, t, u, vnode, env, fr, aug=False, bindonly=False):
        if isinstance(t, ast.Name):
            want = local_unit(t.id)
            if want is not None and t.id in EXACT and len(t.id) < 6:
                env[t.id] = u if u is not None else want
            elif want is not None:
                self.site("stores", t, u)
                if aug:
                    # x_percent /= 100: the name is reused for the converted value
                    env[t.id] = u
                    return
                self.expect(u, want, vnode, fr, "name", f"the variable {t.id}")
                if u is None or mismatch(u, want) or u.k == "c" and u.val is not None and not isinstance(u.val, bool):
                    env[t.id] = want
                else:
                    env[t.id] = u
            else:
                env[t.id] = u if u is not None else weak_unit(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.parts(u, len(t.elts))
            for x, p in zip(t.elts, parts):
                self.assign(x.value if isinstance(x, ast.Starred) else x, p, vnode, env, fr)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, env, fr)
            want = name_unit(t.attr)
            self.site("stores", t, u)
            if want is not None:
                self.expect(u, want, vnode, fr, "field", f"the field {t.attr}")
            if self.collect is not None and isinstance(t.value, ast.Name) and t.value.id == "self" and fr.cls:
                self.collect.setdefault((fr.cls.qualname, t.attr), []).append(u)
        elif isinstance(t, ast.Subscript):
            self.ev_index(t.slice, env, fr)
            base = self.ev(t.value, env, fr)
            if isinstance(t.value, ast.Name):
                nm = t.value.id
                if base is not None and base.k == "c":
                    env[nm] = u if u is not None and u.k != "tuple" else None
                elif base is not None and u is not None and u.k != "c" and not aug:
                    if name_unit(nm) is not None or base.k in ("q", "db"):
                        if mismatch(u, base) and not isinstance(t.slice, ast.Constant):
                            self.report("element", vnode,
                                        f"an array holding {base.text()} gets {u.text()}", fr)
                    if mismatch(u, base):
                        env[nm] = None
                elif base is not None and u is None and name_unit(nm) is None:
                    env[nm] = None

    def parts(self, u, n):
        if u is None:
            return [None] * n
        if u.k == "tuple":
            v = list(u.val)
            return v if len(v) == n else [None] * n
        if u.k == "shape":
            return [NUM] * n
        if u.k in ("seq",):
            return [u.val] * n
        return [u if u.k != "c" else POLY] * n

    def elem(self, u):
        if u is None:
            return None
        if u.k == "tuple":
            r = u.val[0] if u.val else None
            for x in u.val[1:]:
                r = join(r, x)
            return r
        if u.k == "seq":
            return u.val
        if u.k == "shape":
            return NUM
        if u.k == "c":
            return POLY
        return u

    def truth(self, u):
        if u is not None and u.k == "c" and isinstance(u.val, bool):
            return u.val
        return None

    # ----------------------------------------------------------- expressions
    def ev(self, n, env, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(n, env, fr)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env, fr)
        return None

    def e_Constant(self, n, env, fr):
        return U("c", val=n.value)

    def e_Name(self, n, env, fr):
        if n.id in env:
            u = env[n.id]
            return u if u is not None else weak_unit(n.id)
        u = name_unit(n.id)
        if u is not None:
            return u
        r = self.prog.resolve(fr.module, n.id)
        if r is not None and r[0] == "var":
            v = r[2]
            if isinstance(v, ast.Constant):
                return U("c", val=v.value)
            return POLY if isinstance(v, (ast.UnaryOp, ast.BinOp)) else None
        return None

    def e_Attribute(self, n, env, fr):
        r = self.prog.resolve_expr(fr.module, n) if not (isinstance(n.value, ast.Name) and n.value.id in env) else None
        if r is not None:
            if r[0] == "ext" and r[1].split(".")[-1] in ("pi", "e", "inf", "nan", "newaxis"):
                return U("c", val={"pi": math.pi, "e": math.e, "inf": math.inf}.get(n.attr, None))
            return None
        base = self.ev(n.value, env, fr)
        if n.attr == "shape":
            return U("shape")
        if n.attr in ("size", "ndim", "itemsize"):
            return NUM
        if n.attr in ("T", "real", "imag", "flat"):
            return base
        u = name_unit(n.attr)
        if u is not None:
            return u
        cls = fr.cls if isinstance(n.value, ast.Name) and n.value.id == "self" else None
        g = None
        if cls is not None:
            k, th = cls.lookup(n.attr)
            if k == "prop":
                g = th[0]
            else:
                return self.field(cls, n.attr)
        elif len(self.byget.get(n.attr, ())) == 1 and base is None:
            g = self.byget[n.attr][0]
        if g is not None:
            return self.run_fn(g, {})
        return None

    def field(self, cls, name):
        for c in cls.mro():
            if (c.qualname, name) in self.fields:
                return self.fields[(c.qualname, name)]
        return None

    def ev_index(self, sl, env, fr):
        parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        for p in parts:
            bounds = [p.lower, p.upper, p.step] if isinstance(p, ast.Slice) else [p]
            for b in bounds:
                if b is None:
                    continue
                u = self.ev(b, env, fr)
                if u is None:
                    continue
                self.site("indices", b, u)
                bad = (u.k == "q" and u.val not in ("fs", "loose") and (u.s or u.m or u.sc)) or u.k in ("db", "deg", "rad", "gf", "gp")
                if bad:
                    self.report("index", b, f"the index {ast.unparse(b)} is {u.text()}, not a number of samples", fr)

    def e_Subscript(self, n, env, fr):
        base = self.ev(n.value, env, fr)
        self.ev_index(n.slice, env, fr)
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            return name_unit(n.slice.value)
        if base is None:
            return None
        if base.k == "shape":
            return base if isinstance(n.slice, ast.Slice) else NUM
        if base.k == "tuple":
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                i = n.slice.value
                return base.val[i] if -len(base.val) <= i < len(base.val) else None
            return self.elem(base)
        if base.k == "seq":
            return base if isinstance(n.slice, ast.Slice) else base.val
        if base.k == "c":
            return POLY
        return base

    def e_Slice(self, n, env, fr):
        for b in (n.lower, n.upper, n.step):
            if b is not None:
                self.ev(b, env, fr)
        return None

    def e_Tuple(self, n, env, fr):
        vs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.ev(e.value, env, fr)
                return None
            vs.append(self.ev(e, env, fr))
        return U("tuple", val=tuple(vs))

    e_List = e_Tuple

    def e_Dict(self, n, env, fr):
        for k in n.keys:
            if k is not None:
                self.ev(k, env, fr)
        for k, v in zip(n.keys, n.values):
            u = self.ev(v, env, fr)
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                want = name_unit(k.value)
                if want is not None:
                    self.site("calls", v, u)
                    self.expect(u, want, v, fr, "entry", f"the entry '{k.value}'")
        return None

    def e_IfExp(self, n, env, fr):
        c = self.truth(self.ev(n.test, env, fr))
        if c is True:
            return self.ev(n.body, env, fr)
        if c is False:
            return self.ev(n.orelse, env, fr)
        a, b = self.ev(n.body, env, fr), self.ev(n.orelse, env, fr)
        return join(a, b)

    def e_NamedExpr(self, n, env, fr):
        u = self.ev(n.value, env, fr)
        self.assign(n.target, u, n.value, env, fr)
        return u

    def e_BoolOp(self, n, env, fr):
        vs = [self.ev(v, env, fr) for v in n.values]
        ts = [self.truth(v) for v in vs]
        if isinstance(n.op, ast.And):
            if any(t is False for t in ts):
                return U("c", val=False)
            if all(t is True for t in ts):
                return U("c", val=True)
        else:
            if any(t is True for t in ts):
                return U("c", val=True)
            if all(t is False for t in ts):
                return U("c", val=False)
        return None

    def e_UnaryOp(self, n, env, fr):
        u = self.ev(n.operand, env, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth(u)
            return U("c", val=not t) if t is not None else None
        if u is not None and u.k == "c" and isinstance(u.val, (int, float)) and not isinstance(u.val, bool) \
                and isinstance(n.op, ast.USub):
            return U("c", val=-u.val)
        return u if isinstance(n.op, (ast.USub, ast.UAdd)) else None

    def e_Compare(self, n, env, fr):
        us = [self.ev(x, env, fr) for x in [n.left] + n.comparators]
        for a, b, op, x, y in zip(us, us[1:], n.ops, [n.left] + n.comparators, n.comparators):
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
                self.site("sums", n, a, b)
                if mismatch(a, b):
                    self.report("compare", n, f"{ast.unparse(x)} ({a.text()}) is compared with {ast.unparse(y)} "
                                f"({b.text()})", fr)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(y, ast.Constant) and y.value is None and len(us) == 2:
                if a is not None and a.k == "c" and (a.val is None and a is not POLY):
                    return U("c", val=isinstance(op, ast.Is))
                if a is not None and (a.k != "c"):
                    return None
            if isinstance(op, (ast.Eq, ast.NotEq)) and len(us) == 2 and is_q(a) and (a.s or a.m) and b is not None \
                    and b.k == "c" and isinstance(x, ast.Name) and not isinstance(b.val, bool) \
                    and any(p.name == x.id and isinstance(p.default, ast.Constant) and p.default.value == b.val
                            and b.val is not None for p in fr.fi.params):
                # the default of a parameter stands for "not given"
                return U("c", val=isinstance(op, ast.NotEq))
            if isinstance(op, (ast.Eq, ast.NotEq)) and len(us) == 2 and a is not None and b is not None \
                    and a.k == b.k == "c" and isinstance(a.val, str) and isinstance(b.val, str):
                return U("c", val=(a.val == b.val) == isinstance(op, ast.Eq))
            if isinstance(op, ast.In) and len(us) == 2 and a is not None and b is not None and a.k == b.k == "c" \
                    and isinstance(a.val, str) and isinstance(b.val, str):
                return U("c", val=a.val in b.val)
        return None

    def e_JoinedStr(self, n, env, fr):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, env, fr)
        return None

    def comp(self, n, elt, env, fr):
        e = dict(env)
        for g in n.generators:
            it = self.ev(g.iter, e, fr)
            self.assign(g.target, self.elem(it), g.iter, e, fr, bindonly=True)
            for c in g.ifs:
                self.ev(c, e, fr)
        return [self.ev(x, e, fr) for x in elt]

    def e_ListComp(self, n, env, fr):
        u = self.comp(n, [n.elt], env, fr)[0]
        return U("seq", val=u) if u is not None and u.k == "tuple" else u

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, n, env, fr):
        self.comp(n, [n.key, n.value], env, fr)
        return None

    def e_Lambda(self, n, env, fr):
        return U("fn", val=(n, env))

    def flat(self, u):
        """a literal list used as an array"""
        if u is not None and u.k in ("tuple", "seq"):
            return self.elem(u)
        return u

    def e_BinOp(self, n, env, fr):
        a, b = self.ev(n.left, env, fr), self.ev(n.right, env, fr)
        return self.binop(n, n.op, a, b, fr)

    def binop(self, n, op, a, b, fr):
        t = type(op)
        if t in (ast.Add, ast.Sub):
            if a is not None and b is not None and (a.k in ("tuple", "seq") or b.k in ("tuple", "seq")):
                return None
            self.site("sums", n, a, b)
            if mismatch(a, b):
                self.report("sum", n, f"{ast.unparse(n.left)} ({a.text()}) and {ast.unparse(n.right)} ({b.text()}) "
                            "are added or subtracted", fr)
                return None
            if a is None or b is None:
                # a sum takes the unit of the term that is known, where it has one
                o = b if a is None else a
                return o if o is not None and (is_q(o) and (o.s or o.m or o.sc) or o.k == "db") else None
            if a.k == "c" and b.k == "c":
                return self.constop(op, a, b)
            if a.k == "c":
                return b if b.k != "shape" else None
            if b.k == "c":
                return a if a.k != "shape" else None
            if "lq" in (a.k, b.k):
                return None
            if {a.k, b.k} & {"log", "lf", "lp", "dbn"}:
                return a if a.k == b.k and a.k in ("dbn",) and a.val == b.val else None
            if a.k != b.k:
                if "q" in (a.k, b.k) and "db" in (a.k, b.k):
                    return DB
                if {a.k, b.k} == {"q", "rad"}:
                    return RAD
                return None
            return a
        if t in (ast.Mult, ast.Div, ast.FloorDiv):
            return self.muldiv(n, t is ast.Mult, a, b, fr)
        if t is ast.Mod:
            return a if is_q(a) else None
        if t is ast.Pow:
            return self.power(n, a, b, fr)
        return None

    def constop(self, op, a, b):
        x, y = a.val, b.val
        if isinstance(x, (int, float, complex)) and isinstance(y, (int, float, complex)):
            try:
                v = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.Div: lambda: x / y,
                     ast.FloorDiv: lambda: x // y, ast.Pow: lambda: x ** y}[type(op)]()
                return U("c", val=v) if isinstance(v, (int, float, complex)) else POLY
            except Exception:
                return POLY
        return POLY

    def same(self, x, y):
        def core(z):
            while True:
                if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr in ("conj", "conjugate", "abs") and (z.args or True):
                    z = z.args[0] if z.args else z.func.value
                else:
                    return ast.dump(z)
        return core(x) == core(y)

    def muldiv(self, n, mul, a, b, fr):
        if a is None or b is None:
            if not mul and a is None and b is not None and b.k == "c" and b.val in (10, 20) \
                    and not isinstance(b.val, bool):
                return U("dbn", val=int(b.val))
            return None
        a, b = self.flat(a), self.flat(b)
        if a is None or b is None or a.k in ("fn", "shape") or b.k in ("fn", "shape"):
            return None
        if a.k == "c" and b.k == "c":
            return self.constop(ast.Mult() if mul else ast.Div(), a, b)
        self.site("sums", n, a, b)
        if a.k == "c" or b.k == "c":
            return self.withconst(n, mul, a, b, fr)
        ka, kb = a.k, b.k
        if "lq" in (ka, kb):
            return None
        if ka == "q" and kb == "q":
            sg = 1 if mul else -1
            return U("q", a.s + sg * b.s, a.m + sg * b.m, a.sc + sg * b.sc)
        if "db" in (ka, kb):
            o = b if ka == "db" else a
            if o.k in ("field", "power"):
                self.report("gain", n, f"{ast.unparse(n)} multiplies or divides {o.text()} by a level in dB", fr)
                return None
            if ka == "db" and o.k == "q" and dimless(o):
                return DB
            if kb == "db" and mul and o.k == "q" and dimless(o):
                return DB
            return None
        if "q" in (ka, kb) and {"field", "power"} & {ka, kb} and mul:
            o = a if ka == "q" else b
            if dimless(o) and o.sc:
                self.report("gain", n, f"{ast.unparse(n)} scales samples by {o.text()}", fr)
                return None
        if "gp" in (ka, kb) and "field" in (ka, kb):
            self.report("gain", n, f"{ast.unparse(n)} scales amplitude-like samples by a gain that was converted "
                        "from dB with the power convention (divided by 10)", fr)
            return FIELD
        if "gf" in (ka, kb) and "power" in (ka, kb):
            self.report("gain", n, f"{ast.unparse(n)} scales power-like samples by a gain that was converted from dB "
                        "with the amplitude convention (divided by 20)", fr)
            return POWER
        if ka == kb:
            if ka == "field":
                if mul:
                    return POWER if self.same(n.left, n.right) else None
                return FIELD
            if ka in ("power",):
                return POWER if not mul else None
            if ka in ("gf", "gp"):
                return a
            return None
        order = {"field": {"gf", "q", "lin"}, "power": {"gp", "q"}, "gf": {"q"}, "gp": {"q"}}
        for x, y, first in ((a, b, True), (b, a, False)):
            if y.k in order.get(x.k, ()) and (y.k != "q" or (dimless(y) and y.sc == 0)):
                if first or mul:
                    return x
                return None
        if ka == "rad" and kb == "q" and dimless(b):
            return a
        if ka == "deg" and kb == "q" and dimless(b):
            return a
        return None

    def withconst(self, n, mul, a, b, fr):
        c, u, cfirst = (a, b, True) if a.k == "c" else (b, a, False)
        v = abs(c.val) if isinstance(c.val, complex) else c.val
        num = isinstance(v, (int, float)) and not isinstance(v, bool)
        if u.k == "q":
            if cfirst and not mul:
                if num and v == 1 and (u.s, u.m, u.sc) == (1, 0, 0):
                    return FS           # so many per second
                if num and (abs(v) in STRUCT or u.val == "fs") or v == 0:
                    return U("q", -u.s, -u.m, -u.sc)
                if num and v in (1000, 1000.0) and u.s:
                    return U("q", -u.s, -u.m, -u.sc - 3)
                return NUM if dimless(u) and u.sc == 0 else U("q", -u.s, -u.m, -u.sc) if u.s == 1 and not u.sc else None
            if num and v and (u.s or u.m or u.sc):
                for e in (3, 2) if u.sc % 3 or u.m else (3,):
                    if abs(v) == 10 ** e:
                        return U("q", u.s, u.m, u.sc + (-e if mul else e))
                    if abs(abs(v) * 10 ** e - 1) < 1e-12:
                        return U("q", u.s, u.m, u.sc + (e if mul else -e))
            if num and dimless(u) and abs(v) > 100 and isinstance(n, ast.BinOp) \
                    and isinstance(n.left if cfirst else n.right, ast.Name):
                return None             # a constant kept in a variable may be a rate
            if num and dimless(u) and u.sc == 0 and abs(v) in (100, 1000, 0.01, 0.001):
                return SCALED
            if u.s < 0 and not (num and abs(v) in STRUCT):
                return None
            if u.val == "fs" and v in (-1, -1.0):
                return U("q", u.s)
            if u.s and num and abs(v) not in STRUCT:
                # the constant may be a rate or a frequency
                return U("q", u.s, u.m, u.sc, "loose")
            return u
        if u.k == "lq":
            return None
        if u.k in ("log", "lf", "lp"):
            if num and mul and abs(v) in (10, 20):
                self.site("exponentials", n, u)
                if u.k == "lf" and abs(v) == 10 or u.k == "lp" and abs(v) == 20:
                    self.report("decibel", n, f"{ast.unparse(n)} converts {u.text()} with the factor {abs(v):g}", fr)
                return DB
            return None if num or u.k != "log" else None
        if u.k == "db":
            if not mul and not cfirst:
                if num and abs(v) in (10, 20):
                    return U("dbn", val=int(abs(v)))
                return U("dbn", val=None) if not num else (U("dbn", val=None) if abs(v) in (40, 5, 30, 60) else DB)
            return DB if mul else None
        if u.k == "deg":
            if num and (abs(v) in (180, 360) or abs(abs(v) - math.pi / 180) < 1e-9 or abs(v) == math.pi):
                return RAD if abs(abs(v) - math.pi / 180) < 1e-9 and mul else None
            return DEG
        if u.k == "rad":
            return None if num and abs(v) in (180, 360) or cfirst and not mul else RAD
        if u.k in ("field", "power", "gf", "gp", "lin"):
            if cfirst and not mul and u.k in ("field", "power"):
                return u
            return u
        if u.k == "dbn":
            return U("dbn", val=None)
        return None

    def power(self, n, a, b, fr):
        if a is not None and a.k == "c" and a.val in (10, 10.0) and not isinstance(a.val, bool):
            self.site("exponentials", n, b)
            if b is None:
                return None
            if b.k == "dbn":
                return {20: GF, 10: GP}.get(b.val)
            bad = b.k in ("db", "field", "power", "gf", "gp", "lin", "deg") or (b.k == "q" and b.val != "loose" and (b.s or b.m or b.sc))
            if bad:
                self.report("decibel", n, f"{ast.unparse(n)} raises 10 to {b.text()}", fr)
            return POLY if b.k == "c" else None
        if b is not None and b.k == "lq" and a is not None and a.k == "c" and a.val == 2:
            return U("q", b.s, b.m, b.sc)
        if a is None or b is None:
            return None
        if a.k == "c" and b.k == "c":
            return self.constop(ast.Pow(), a, b)
        if b.k != "c" or not isinstance(b.val, (int, float)) or isinstance(b.val, bool):
            return None
        v = Fr(b.val).limit_denominator(12)
        if a.k == "q":
            return U("q", a.s * v, a.m * v, a.sc * v)
        if v == 2:
            if a.k == "gp":
                self.report("gain", n, f"{ast.unparse(n)} squares a gain that was converted from dB with the power convention", fr)
            return {"field": POWER, "gf": GP}.get(a.k)
        if v == Fr(1, 2):
            return {"power": FIELD, "gp": GF}.get(a.k)
        if v == 1 or v == -1:
            return a
        return None

    # ----------------------------------------------------------------- calls
    def e_Call(self, n, env, fr):
        f = n.func
        args, kws, star = [], {}, False
        for x in n.args:
            if isinstance(x, ast.Starred):
                self.ev(x.value, env, fr)
                star = True
            else:
                args.append((self.ev(x, env, fr), x))
        for k in n.keywords:
            u = self.ev(k.value, env, fr)
            if k.arg is not None:
                kws[k.arg] = (u, k.value)
        if star:
            args = []
        # local functions
        if isinstance(f, ast.Name) and f.id in env:
            fv = env[f.id]
            if fv is not None and fv.k == "fn":
                return self.call_local(fv, args, kws, n, env, fr)
            return None
        if isinstance(f, ast.Name):
            r = self.prog.resolve(fr.module, f.id)
            if r is None:
                return self.builtin(f.id, args, kws, n, fr)
            return self.call_resolved(r, args, kws, n, env, fr)
        if isinstance(f, ast.Attribute):
            r = None
            root = f.value
            while isinstance(root, ast.Attribute):
                root = root.value
            if not (isinstance(root, ast.Name) and root.id in env):
                r = self.prog.resolve_expr(fr.module, f)
            if r is not None:
                return self.call_resolved(r, args, kws, n, env, fr)
            # Class.static(...)
            rc = self.prog.resolve_expr(fr.module, f.value) if not (isinstance(root, ast.Name) and root.id in env) \
                else None
            if rc is not None and rc[0] == "class":
                k, th = rc[1].lookup(f.attr)
                if k == "method":
                    return self.call_fi(th, args, kws, n, fr, th.kind == "classmethod")
                return None
            if isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and fr.cls is not None:
                k, th = fr.cls.lookup(_mangle(fr.cls, f.attr))
                if th is None:
                    k, th = fr.cls.lookup(f.attr)
                if k == "method":
                    return self.call_fi(th, args, kws, n, fr, th.kind in ("method", "classmethod"))
                return None
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" \
                    and fr.cls is not None:
                for c in fr.cls.mro()[1:]:
                    if f.attr in c.methods:
                        th = c.methods[f.attr]
                        return self.call_fi(th, args, kws, n, fr, True)
                return None
            base = self.ev(f.value, env, fr)
            if f.attr == "get_interpolated_spectrum":
                self.call_method(base, f.attr, args, kws, n, env, fr)
                return self.spectrum_kind(kws["output_type"][1] if "output_type" in kws else args[1][1] if len(args) > 1
                                          else None)
            return self.call_method(base, f.attr, args, kws, n, env, fr)
        self.ev(f, env, fr)
        return None

    @staticmethod
    def spectrum_kind(x):
        """values of a spectrum as asked for: by the members named in the argument"""
        kind = {"Complex": FIELD, "Magnitude": FIELD, "Power": POWER, "Db": DB}
        ms = [y.attr for y in ast.walk(x) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name)
              and y.value.id == "SpectrumType"] if x is not None else []
        us = [kind.get(m) for m in ms]
        return us[0] if us and all(u is us[0] for u in us) else None

    def call_local(self, fv, args, kws, n, env, fr):
        node, denv = fv.val
        if len(self.stack) >= self.maxdepth + 2 or any(x is node for x in getattr(self, "_loc", [])):
            return None
        self._loc = getattr(self, "_loc", []) + [node]
        e = dict(env)
        ps = [a.arg for a in node.args.posonlyargs + node.args.args]
        for p in ps:
            e[p] = name_unit(p)
        for p, (u, x) in zip(ps, args):
            w = name_unit(p)
            if w is not None:
                self.site("calls", x, u)
                self.expect(u, w, x, fr, "argument", p)
            else:
                e[p] = u
        for k, (u, x) in kws.items():
            if k in ps and name_unit(k) is None:
                e[k] = u
        if isinstance(node, ast.Lambda):
            r = self.ev(node.body, e, fr)
        else:
            fr2 = Frame(fr.fi, fr.module, fr.cls)
            self.block(node.body, e, fr2)
            r = None
            if fr2.ret:
                r = fr2.ret[0][0]
                for u, _ in fr2.ret[1:]:
                    r = join(r, u)
        self._loc = self._loc[:-1]
        return r

    def call_resolved(self, r, args, kws, n, env, fr):
        if r[0] == "func":
            return self.call_fi(r[1], args, kws, n, fr, False)
        if r[0] == "class":
            init = r[1].find("methods", "__init__")
            if init is not None:
                b = self.bind(init, args, kws, n, fr, True)
            return None
        if r[0] == "ext":
            return self.external(r[1], args, kws, n, fr)
        return None

    def call_method(self, base, name, args, kws, n, env, fr):
        cands = self.bymeth.get(name, ())
        if name in KEEP_METHODS and (base is not None or not cands):
            if name == "clip":
                for u, x in args:
                    if mismatch(base, u):
                        self.report("compare", n, f"{ast.unparse(n)} clips {base.text()} with {u.text()}", fr)
            return self.flat(base)
        if name in ("var",):
            return POWER if base is not None and base.k == "field" else None
        if name in ("argmin", "argmax", "argsort", "nonzero", "count", "index"):
            return NUM
        if name in ("append", "insert", "extend") and isinstance(n.func, ast.Attribute) \
                and isinstance(n.func.value, ast.Name) and n.func.value.id in env and args and not cands:
            nm, u = n.func.value.id, args[-1][0]
            if name == "extend":
                u = self.elem(u)
            if base is not None and base.k == "tuple" and not base.val:
                env[nm] = u if u is None or u.k not in ("tuple", "seq") else U("seq", val=u)
            elif base is not None and base.k == "tuple":
                env[nm] = None
            elif base is not None and base.k == "seq":
                j = join(base.val, u)
                env[nm] = U("seq", val=j) if j is not None else None
            else:
                if mismatch(base, u):
                    self.report("element", args[-1][1], f"a list holding {base.text()} gets {u.text()}", fr)
                env[nm] = join(base, u)
            return None
        if len(cands) == 1:
            return self.call_fi(cands[0], args, kws, n, fr, cands[0].kind in ("method", "classmethod"))
        if cands:
            # several classes have it: the names of the parameters still tell
            for i, (u, x) in enumerate(args):
                ws = set()
                for c in cands:
                    ps = [p for p in c.params if p.kind == "pos"][1 if c.kind in ("method", "classmethod") else 0:]
                    ws.add(name_unit(ps[i].name) if i < len(ps) else None)
                if len(ws) == 1 and None not in ws:
                    w = ws.pop()
                    self.site("calls", x, u)
                    self.expect(u, w, x, fr, "argument", f"argument {i + 1} of {name}")
            for k, (u, x) in kws.items():
                w = name_unit(k)
                if w is not None:
                    self.site("calls", x, u)
                    self.expect(u, w, x, fr, "argument", f"{k} of {name}")
            r = name_unit(name, True)
            if r is None and len(cands) <= 4:
                rs = [self.run_fn(c, {}) if not any(_dec(d) == "abstractmethod" for d in c.decorators)
                      else self.result_unit(c) for c in cands]
                r = rs[0]
                for x in rs[1:]:
                    r = join(r, x)
                if r is not None and r.k == "c":
                    r = None
            return r
        for k, (u, x) in kws.items():
            w = name_unit(k)
            if w is not None:
                self.site("calls", x, u)
                self.expect(u, w, x, fr, "argument", f"{k} of {name}")
        return None

    def counts(self, uns, fr, rule, what):
        for u, x in uns:
            self.site("indices", x, u)
            parts = u.val if u is not None and u.k == "tuple" else (u,)
            for p in parts:
                if p is not None and (p.k in ("db", "deg", "gf", "gp") or p.k == "q" and p.val not in ("fs", "loose") and (p.s or p.m or p.sc)):
                    self.report(rule, x, f"{what} {ast.unparse(x)} is {p.text()}, not a number of samples", fr)

    def builtin(self, name, args, kws, n, fr):
        a0 = args[0][0] if args else None
        if name in ("int", "float", "round", "abs", "sorted", "list", "tuple", "reversed", "set", "complex"):
            if a0 is not None and a0.k == "c" and name == "abs" and isinstance(a0.val, (int, float)):
                return U("c", val=abs(a0.val))
            if name == "int" and is_q(a0) and a0.s > 0 and a0.val != "loose":
                self.report("index", n, f"{ast.unparse(n)} cuts {a0.text()} to a whole number", fr)
            if name in ("int", "round") and len(args) == 1 and a0 is not None and a0.k == "c" \
                    and isinstance(a0.val, float) and a0.val != int(a0.val):
                self.report("index", n, f"{ast.unparse(n)} cuts the fraction {a0.val:g} to a whole number", fr)
            if name in ("sorted", "set"):
                return self.flat(a0)
            return a0
        if name == "len":
            return NUM
        if name == "slice":
            self.counts(args, fr, "index", "the slice bound")
            return None
        if name == "range":
            self.counts(args, fr, "index", "the range bound")
            return NUM
        if name in ("max", "min", "sum"):
            if len(args) == 1:
                return self.flat(a0)
            u = a0
            for b, x in args[1:]:
                if mismatch(u, b):
                    self.report("compare", n, f"{ast.unparse(n)} compares {u.text()} with {b.text()}", fr)
                u = join(u, b) if u is not None else None
            return u
        if name == "enumerate":
            return U("seq", val=U("tuple", val=(NUM, self.elem(a0))))
        if name == "zip":
            return U("seq", val=U("tuple", val=tuple(self.elem(u) for u, _ in args)))
        if name in ("isinstance", "hasattr", "callable", "type"):
            return None
        return None

    def external(self, q, args, kws, n, fr):
        parts = q.split(".")
        name = parts[-1]
        top = parts[0]
        a0 = self.flat(args[0][0]) if args else None

        def arg(i, kw):
            if kw in kws:
                return kws[kw]
            return args[i] if i < len(args) else (None, None)
        if top in ("numpy", "math", "scipy"):
            self.sites["external"].add(id(n))
        for k in ("frames", "nperseg", "noverlap", "nfft", "n_fft"):
            if k in kws:
                self.counts([(kws[k][0], kws[k][1])], fr, "index", f"{k} of {name}:")
        if top not in ("numpy", "math", "scipy", "copy", "itertools"):
            for k, (u, x) in kws.items():
                w = name_unit(k)
                if w is not None and k not in ("fs",):
                    self.expect(u, w, x, fr, "argument", f"{k} of {name}")
            return None
        if q in ("copy.copy", "copy.deepcopy"):
            return args[0][0] if args else None
        if "fft" in parts and name in ("rfftfreq", "fftfreq"):
            self.counts(args[:1], fr, "index", "the transform length")
            d, x = arg(1, "d")
            if x is None:
                return NUM
            self.site("calls", x, d)
            if d is None or d.k == "c":
                return NUM if d is not None and d.val == 1 else None
            if d.k == "q" and d.s != 1:
                self.report("argument", x, f"the sample spacing of {name} is a time, but gets {d.text()}", fr)
                return None
            return U("q", -d.s, -d.m, -d.sc) if d.k == "q" else None
        if "fft" in parts and name in ("rfft", "fft", "irfft", "ifft", "rfft2", "fft2"):
            ln, x = arg(1, "n")
            if x is not None:
                self.counts([(ln, x)], fr, "index", "the transform length")
            return FIELD if a0 is not None and a0.k == "field" else None
        if name in ("sqrt",):
            return self.power(n, a0, U("c", val=0.5), fr) if a0 is not None and a0.k != "c" else a0
        if name == "square":
            return self.power(n, a0, U("c", val=2), fr) if a0 is not None else None
        if name == "power" and len(args) > 1:
            return self.power(n, a0, args[1][0], fr)
        if name == "log10":
            self.site("exponentials", n, a0)
            if a0 is None:
                return LOG
            if a0.k == "db":
                self.report("decibel", n, f"{ast.unparse(n)} takes the logarithm of a level in dB", fr)
                return None
            return {"field": LF, "gf": LF, "power": LP, "gp": LP, "c": POLY}.get(a0.k, LOG)
        if name in TRIG or name in EXPS:
            self.site("exponentials", n, a0)
            if name == "log2" and a0 is not None and a0.k == "q":
                return U("lq", a0.s, a0.m, a0.sc)
            if a0 is not None:
                if name in TRIG and (a0.k in ("deg", "db") or a0.k == "q" and a0.val != "loose"
                                       and (a0.s or a0.m or a0.sc)):
                    self.report("angle", n, f"{ast.unparse(n)} takes the {name} of {a0.text()}", fr)
                elif name in EXPS and not name.startswith("log") and a0.k == "q" and a0.val != "loose" and (a0.s or a0.m or a0.sc):
                    self.report("angle", n, f"{ast.unparse(n)} takes {name} of {a0.text()}", fr)
                if a0.k == "c":
                    return POLY
            return None
        if name in ("angle", "arctan", "arctan2", "arcsin", "arccos", "atan2", "atan", "acos", "asin"):
            d, x = arg(1, "deg")
            return RAD if x is None or name != "angle" else None
        if name in ("deg2rad", "radians"):
            self.site("exponentials", n, a0)
            if a0 is not None and (a0.k == "rad" or a0.k in LEVEL):
                self.report("angle", n, f"{ast.unparse(n)} converts {a0.text()} as if it were degrees", fr)
            return RAD
        if name in ("rad2deg", "degrees"):
            if a0 is not None and (a0.k == "deg" or a0.k in LEVEL):
                self.report("angle", n, f"{ast.unparse(n)} converts {a0.text()} as if it were radians", fr)
            return DEG
        if name == "unwrap":
            return a0
        if name == "gradient" and len(args) > 1:
            h = self.flat(args[1][0])
            if a0 is None or h is None or h.k != "q":
                return None
            if a0.k == "rad" or a0.k == "q":
                return U("q", a0.s - h.s, a0.m - h.m, a0.sc - h.sc)
            return None
        if name in ("hilbert", "envelope", "detrend", "lfilter", "sosfilt", "filtfilt", "sosfiltfilt"):
            return a0 if a0 is not None and a0.k == "field" and name in ("hilbert", "detrend") else None
        if name == "sign" or "random" in parts:
            return POLY
        if name == "group_delay" and top == "scipy":
            w = HZ if "fs" in kws else None
            return U("tuple", val=(w, NUM))
        if name in ("var", "nanvar"):
            return POWER if a0 is not None and a0.k == "field" else None
        if name in ("std", "nanstd"):
            return a0
        if name in FILLERS:
            if not name.endswith("_like"):
                self.counts(args[:1], fr, "index", "the array shape")
            return POLY
        if name in ("full", "full_like"):
            if name == "full":
                self.counts(args[:1], fr, "index", "the array shape")
            return args[1][0] if len(args) > 1 else None
        if name == "arange":
            us = [u for u, _ in args[:3]]
            if len(us) == 1:
                return NUM if us[0] is None or us[0].k in ("c",) else us[0]
            u = us[0]
            for b, x in args[1:3]:
                if mismatch(u, b):
                    self.report("compare", n, f"{ast.unparse(n)} mixes {u.text()} and {b.text()}", fr)
                u = join(u, b) if u is not None else None
            return NUM if u is not None and u.k == "c" else u
        if name in ("linspace", "geomspace"):
            b, bx = arg(1, "stop")
            if mismatch(a0, b):
                self.report("compare", n, f"{ast.unparse(n)} mixes {a0.text()} and {b.text()}", fr)
            c, cx = arg(2, "num")
            if cx is not None and not (is_q(c) and is_q(a0) and c.s == a0.s == -1 and not c.sc):
                # (one point per hertz of a frequency range is a choice of resolution)
                self.counts([(c, cx)], fr, "index", "the number of points")
            r = join(a0, b)
            return r if r is None or r.k != "c" else POLY
        if name == "interp" and len(args) >= 3:
            if mismatch(args[0][0], args[1][0]):
                self.report("compare", n, f"{ast.unparse(n)} looks up {args[0][0].text()} in {args[1][0].text()}", fr)
            return args[2][0]
        if name == "clip":
            for (u, x) in list(args[1:3]) + [kws[k] for k in ("a_min", "a_max", "min", "max") if k in kws]:
                if mismatch(a0, u):
                    self.report("compare", n, f"{ast.unparse(n)} clips {a0.text()} with {u.text()}", fr)
            return a0
        if name == "where" and len(args) == 3:
            return join(args[1][0], args[2][0])
        if name == "searchsorted" and len(args) >= 2:
            if mismatch(a0, args[1][0]):
                self.report("compare", n, f"{ast.unparse(n)} searches {args[1][0].text()} in {a0.text()}", fr)
            return NUM
        if name in COUNTS:
            return NUM
        if name in JOINERS:
            us = [u for u, _ in args[:2 if name not in ("concatenate", "hstack", "vstack", "stack") else 1]]
            if us and us[0] is not None and us[0].k == "tuple":
                us = list(us[0].val)
            u = self.flat(us[0]) if us else None
            for b in us[1:]:
                b = self.flat(b)
                if mismatch(u, b):
                    self.report("compare", n, f"{ast.unparse(n)} combines {u.text()} and {b.text()}", fr)
                u = join(u, b) if u is not None else None
            return u
        if top == "scipy" and name == "get_window":
            self.counts(args[1:2], fr, "index", "the window length")
            return POLY
        if top == "scipy" and name in DESIGN:
            i = DESIGN[name]
            w, x = None, None
            for kw in ("Wn", "cutoff", "w0", "freq"):
                if kw in kws:
                    w, x = kws[kw]
            if x is None and i < len(args):
                w, x = args[i]
            w = self.flat(w)
            fs, fx = kws.get("fs", (None, None))
            if x is not None:
                self.site("calls", x, w, fs)
                if fx is None and w is not None and w.k == "q" and (w.s or w.m or w.sc):
                    self.report("argument", x, f"{name} without fs takes a frequency relative to half the sampling "
                                f"rate, but gets {w.text()}", fr)
                if fx is not None and is_q(w) and not (w.s == -1 and w.m == 0 and w.sc == 0) and not (
                        fs is not None and fs.k == "c"):
                    self.report("argument", x, f"{name} with fs takes a frequency in hertz, but gets {w.text()}", fr)
        if "fs" in kws:
            u, x = kws["fs"]
            self.site("calls", x, u)
            self.expect(u, HZ, x, fr, "argument", f"fs of {name}")
        if name in KEEP:
            return a0
        return None

    # ------------------------------------------------------------------ run
    def contexts(self, f):
        """argument values with which a function is entered from outside: nothing known, every flag
        set and not set (several flags together in the thorough tier), optional arguments left out"""
        base = {p.name: None for p in f.params}
        yield base
        flags = [p.name for p in f.params if isinstance(p.default, ast.Constant) and isinstance(p.default.value, bool)
                 or p.ann is not None and isinstance(p.ann, ast.Name) and p.ann.id == "bool"]
        nones = [p.name for p in f.params if isinstance(p.default, ast.Constant) and p.default.value is None
                 and p.ann is not None and "None" in ast.unparse(p.ann) and name_unit(p.name) is not FS]
        if nones:
            yield base | {n: U("c", val=None) for n in nones}
        for k in range(1, (len(flags) if self.deep else 1) + 1 if flags else 0):
            for names in itertools.combinations(flags, min(k, len(flags))):
                for vals in itertools.product((True, False), repeat=len(names)):
                    c = base | {n: U("c", val=v) for n, v in zip(names, vals)}
                    yield c
                    if self.deep and nones:
                        yield c | {n: U("c", val=None) for n in nones if n not in names}

    def run(self):
        fns = [f for f in self.prog.functions if f.parent is None and not isinstance(f.node, ast.Lambda)]
        for rnd in range(3):
            self.memo, self.found = {}, {}
            self.collect = {}
            for f in fns:
                for b in self.contexts(f):
                    self.run_fn(f, b)
            new = {}
            for k, us in self.collect.items():
                us = [u for u in us if not (u is not None and u.k == "c" and u.val is None)]
                if not us:
                    continue
                u = us[0]
                for x in us[1:]:
                    u = join(u, x)
                if u is not None and u.k in ("fn", "seq", "shape", "c"):
                    u = None
                new[k] = u
            if new == self.fields:
                break
            self.fields = new
        return list(self.found.values())


def _mangle(cls, name):
    return name


def _dec(d):
    while isinstance(d, ast.Call):
        d = d.func
    return d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")
