"""C04: cached and derived results are never stale."""
import ast
from ..core import Finding
from ..facts import sweep_all, coverage, SETTINGS, DATA
from ..interp import Hook, _decname
from ..program import AnalysisBroken, mangle
from ..skips import skipped_updates
from ..summary import reach
from ..values import V, E, NONE, ckey

EXPLANATION = """Typestate over an alias-precise heap. For every cache (spectrum, cross-spectral matrix, spectrogram and time vector
of signals, calibration factors, microphone-array geometry) the update flag, the cached fields and the method that fills them
are inferred from the classes, and the inputs are the fields the filling method reads. Any public operation that writes an
input field, an entry of an input dictionary or the content of an input array of an object - directly, through setters,
helpers, copies or other modules - makes that cache dirty until its flag is set or it is refilled. Violations are: a public
operation returning with a dirty cache in its arguments, receiver or results, a filling method called while dirty, a flag
cleared without the cache being stored, a cached field read outside its filling method, and a getter handing out the stored
array itself. Values derived eagerly (frequency-vector type, array dimensions, filter banks built from coefficients) must be
rebuilt on every path that changes what they are derived from; values rebuilt on use must be stored before they are read."""
ASSUMPTIONS = ["arrays handed out by data properties are not modified in place by the user",
               "public attributes are changed through the object's methods and properties"]
MINIMUM = {"operations_analysed": 600, "flag_caches": 5, "derived_value_rules": 8, "input_writes_tracked": 60,
           "cache_fills_seen": 10, "skipped_updates_judged": 2}

# fields holding the inputs of the flag caches (united with what the filling method reads)
INPUTS = {
    "get_spectrum": {"_Signal__time_data", "_Signal__sampling_rate_hz", "_spectrum_parameters", "window"},
    "get_csm": {"_Signal__time_data", "_Signal__sampling_rate_hz", "_spectrum_parameters", "window"},
    "get_spectrogram": {"_Signal__time_data", "_Signal__sampling_rate_hz", "_spectrogram_parameters"},
    "_generate_time_vector": {"_Signal__time_data", "_Signal__sampling_rate_hz"},
    "_compute_calibration_factors": {"calibration_signal", "calibration_spl_db", "high_snr"},
}
NOT_INPUT = {"activate_cache"}
# only shapes are read through these
SHAPES = {"number_of_channels"}
# derived values that are arrays (the others are numbers)
HANDED = {"_MicArray__array_center_coordinates"}
# absent only while the object is being constructed
ALWAYS = {"_spectrum_parameters", "_spectrogram_parameters"}

# class, derived fields, what they are derived from: rebuilt when the inputs change
DERIVED = [
    ("MicArray", {"_MicArray__aperture"}, {"_coordinates"}),
    ("MicArray", {"_MicArray__min_distance"}, {"_coordinates"}),
    ("MicArray", {"_MicArray__array_center_coordinates"}, {"_coordinates"}),
    ("MicArray", {"_MicArray__array_center_channel_number"}, {"_coordinates"}),
    ("BasePoints", {"dim"}, {"_coordinates"}),
    ("BasePoints", {"ndim"}, {"_coordinates"}),
    ("ParallelFilter", {"filter_bank"}, {"_ParallelFilter__sos", "_ParallelFilter__fir_coefficients"}),
    ("ParallelFilter", {"iir"}, {"filter_bank"}),
    ("KautzFilter", {"_KautzFilter__filters_real"}, {"poles_real"}),
    ("KautzFilter", {"_KautzFilter__filters_complex"}, {"poles_complex"}),
    ("Spectrum", {"_Spectrum__frequency_vector_type"}, {"_Spectrum__frequency_vector_hz"}),
    ("Room", {"schroeders_frequency"}, {"_Room__volume", "t60_s"}),
    ("Room", {"critical_distance_m"}, {"_Room__volume", "t60_s"}),
    ("StateVariableFilter", {"intermediate_value"}, {"g"}),
    ("StateVariableFilter", {"intermediate_value"}, {"resonance"}),
    ("FIRUniformPartitioned", {"partitioned_spectrum"}, {"blocksize"}),
    ("FIRFilterOverlapSave", {"fir_spectrum"}, {"blocksize"}),
]
# classes that do not use what their base class derives
NOT_FOR = {("FIRUniformPartitioned", "fir_spectrum")}
# class, fields that must be computed by a call before it reads them
REBUILT = [("SpectralSubtractor", {"window", "window_length", "step_size"}),
           ("BaseBeamformer", {"map", "f_range_hz", "center_frequency_hz", "octave_fraction"}),
           ("AudioEffect", {"_peak_values", "_rms_values"})]

SELFCHECK = '''
from __future__ import annotations
import numpy as np
from functools import cached_property
from numpy.typing import NDArray
from .classes.signal import Signal
from .classes.spectrum import Spectrum
from .classes.calibration_data import CalibrationData
from .standard.enums import SpectrumScaling

def bad_inplace(sig: Signal):
    out = sig.copy()
    out.time_data[0, 0] = 0.0
    return out

def bad_param(sig: Signal):
    sig._spectrum_parameters["smoothing"] = 3

def bad_stale_read(sig: Signal):
    s = sig.copy()
    s._spectrum_parameters["scaling"] = SpectrumScaling.FFTBackward
    return s.get_spectrum()[1]

def bad_direct(sig: Signal):
    return sig.spectrum[1]

def bad_branch(sig: Signal, n: int):
    sig._spectrogram_parameters = dict(sig._spectrogram_parameters, padding=False)
    if n > 0:
        sig._Signal__spectrogram_state_update = True

def bad_calibration(c: CalibrationData):
    c.calibration_spl_db = c.calibration_spl_db + 1

def good_setter(sig: Signal):
    s = sig.copy()
    s.time_data = s.time_data * 2.0
    s.spectrum_scaling = SpectrumScaling.FFTBackward
    return s.get_spectrum()[1], s

class _Settings:
    def __init__(self):
        self.settings = dict(a=1, b=2)
        self.update = True
    def value(self):
        if self.update:
            self.cached = self.settings["a"] + self.settings["b"]
            self.update = False
        return self.cached
    def bad_any(self, a, b):
        new = dict(a=a, b=b)
        if not any(self.settings[k] == new[k] for k in new):
            self.settings = new
            self.update = True
    def bad_filter(self, a, b):
        new = dict(a=a, b=b)
        if any([self.settings[k] != v for k, v in new.items() if k != "b"]):
            self.settings = new
            self.update = True
    def bad_return(self, a, b):
        if self.settings["a"] == a:
            return
        self.settings = dict(a=a, b=b)
        self.update = True
    def bad_subset(self, a, b):
        new = {"a": a, "b": b}
        same = all(self.settings[k] == new[k] for k in ("a",))
        if not same:
            self.settings = new
            self.update = True
    def good_whole(self, a, b):
        new = dict(a=a, b=b)
        if new != self.settings:
            self.settings = new
            self.update = True
    def good_each(self, a, b):
        if self.settings["a"] == a and b == self.settings["b"]:
            return
        self.settings = dict(a=a, b=b)
        self.update = True
    def good_all(self, a, b):
        new = dict(a=a, b=b)
        unchanged = all([new[k] == self.settings[k] for k in self.settings])
        if unchanged:
            return
        self.settings = new
        self.update = True
    def good_any(self, a, b):
        new = dict(a=a, b=b)
        if any(new[k] != v for k, v in self.settings.items()):
            self.settings = new
            self.update = True

class _Lazy:
    def __init__(self, gain):
        self.gain = gain
        self.offset = 0.0
        self._table = None
        self._first = None

    def table(self):
        if self._table is None:
            self._table = np.arange(4) * self.gain
        return self._table.copy()

    @cached_property
    def bad_kept(self):
        return self.gain * 2.0

    def bad_first(self, n):
        if self._first is None:
            self._first = np.ones(n)
        return self._first.copy()


    def put_gain(self, g):
        self.gain = g
        self._table = None


def bad_lazy(c: _Lazy, g: float):
    c.gain = g


def bad_lazy_after(c: _Lazy, g: float):
    c._table = None
    y = c.table()
    c.gain = g
    return y


def good_lazy(c: _Lazy, g: float):
    c.offset = g
    c.gain = g
    c._table = None


def good_lazy_before(c: _Lazy, g: float):
    c._table = None
    c.gain = g
    return c.table()


def good_flag_after(sig: Signal):
    sig._spectrogram_parameters = dict(sig._spectrogram_parameters, padding=False)
    sig._Signal__spectrogram_state_update = True
'''
SELF_BAD = {"bad_inplace", "bad_param", "bad_stale_read", "bad_direct", "bad_branch", "bad_calibration",
            "bad_any", "bad_filter", "bad_return", "bad_subset", "bad_lazy", "bad_lazy_after", "bad_kept", "bad_first"}


class Spec:
    def __init__(self, i, cls, flag, caches, inputs, fillers, sentinel=False):
        self.i, self.cls, self.flag, self.caches, self.inputs = i, cls, flag, caches, inputs
        self.fillers, self.sentinel = fillers, sentinel
        self.memo = False


def self_stores(fi):
    """{attribute: [value nodes]} of assignments to attributes of self"""
    out = {}
    if not fi.params:
        return out
    me = fi.params[0].name
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                    out.setdefault(mangle(fi.cls, t.attr), []).append(n.value)
    return out


def is_bool(n, val=None):
    return isinstance(n, ast.Constant) and isinstance(n.value, bool) and (val is None or n.value is val)


def reads(prog, fi, cls, seen=None):
    """fields of self read by a method, through its getters and own methods"""
    seen = seen if seen is not None else set()
    if fi.qualname in seen or not fi.params:
        return set()
    seen.add(fi.qualname)
    me = fi.params[0].name
    out = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me \
                and isinstance(n.ctx, ast.Load) and n.attr not in SHAPES:
            k, th = cls.lookup(n.attr)
            if k == "prop":
                if th[0] is not None:
                    out |= reads(prog, th[0], cls, seen)
            elif k == "method":
                out |= reads(prog, th, cls, seen) if hasattr(th, "node") else set()
            else:
                out.add(mangle(fi.cls, n.attr))
    return out


def flag_specs(prog, selfcheck=False):
    specs = []
    for q in sorted(prog.classes):
        ci = prog.classes[q]
        if ci.is_enum or "_verif_selfcheck" in q and not selfcheck:
            continue
        stores = {}
        for table in ("methods", "getters", "setters"):
            for fi in getattr(ci, table).values():
                for f, vals in self_stores(fi).items():
                    stores.setdefault(f, []).append((fi, vals))
        for f, where in stores.items():
            vals = [v for _, vs in where for v in vs]
            filler = [fi for fi, vs in where if any(is_bool(v, False) for v in vs) and fi.name != "__init__"]
            if len(filler) != 1 or not any(is_bool(v, True) for v in vals):
                continue
            fi = filler[0]
            # the caches: fields the filling method assigns anything but truth values
            caches = {g for g, vs in self_stores(fi).items() if not all(is_bool(v) for v in vs)
                      and ci.lookup(g)[0] != "prop"}
            if f not in reads(prog, fi, ci) and not caches:
                continue
            if not caches:
                continue
            specs.append((ci, f, caches, fi))
    out = []
    flags = {f for _, f, _, _ in specs}
    allc = set().union(*(c for _, _, c, _ in specs)) if specs else set()
    for ci, f, caches, fi in specs:
        inp = (reads(prog, fi, ci) - flags - allc - NOT_INPUT) | INPUTS.get(fi.name, set())
        # a filling method may itself be reached through one that holds the test of the flag
        out.append((ci, f, caches, inp, fi))
    return out


DATAFIELDS = set().union(*SETTINGS.values(), *DATA.values())
DELETED = frozenset(["deleted"])


def asked(test, me):
    """field of which the test asks whether it is there already; only plain questions, other tests may compare keys"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return asked(test.operand, me)

    def own(x):
        return x.attr if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me else None

    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
        if isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            x = test.left
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "getattr" and len(x.args) == 3:
                return asked(ast.Call(ast.Name("hasattr"), x.args[:2], []), me)
            return own(x)
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "hasattr" and len(test.args) == 2:
        if isinstance(test.args[0], ast.Name) and test.args[0].id == me and isinstance(test.args[1], ast.Constant):
            return test.args[1].value
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.In, ast.NotIn)) \
            and isinstance(test.left, ast.Constant) and ast.unparse(test.comparators[0]) in (f"{me}.__dict__", f"vars({me})"):
        return test.left.value
    return None


def lazy_fields(prog):
    """-> [(class, field, inputs, method, parameters the kept value depends on)]: values computed by a reading method the first
    time they are asked for and kept"""
    known = set().union(*(c | {f} for _, f, c, _, _ in flag_specs(prog)), *(c | i for _, c, i in DERIVED),
                        *(fs for _, fs in REBUILT), *SETTINGS.values(), *DATA.values())
    out = []
    for q in sorted(prog.classes):
        ci = prog.classes[q]
        if ci.is_enum:
            continue
        for fi in [*ci.methods.values(), *ci.getters.values()]:
            if not fi.params or fi.name == "__init__" or fi.kind in ("static", "classmethod"):
                continue
            me = fi.params[0].name
            if any("cache" in _decname(d) for d in fi.decorators):
                inp = {f for f in reads(prog, fi, ci) if f not in known or f in DATAFIELDS}
                out.append((ci, "@" + fi.name, inp, fi, set()))
                continue
            fields = {asked(n.test, me) for n in ast.walk(fi.node) if isinstance(n, (ast.If, ast.IfExp))}
            fields |= {n.value.attr for x in ast.walk(fi.node) if isinstance(x, ast.Try) and any(
                h.type is not None and "AttributeError" in ast.unparse(h.type) for h in x.handlers) for n in x.body
                if isinstance(n, (ast.Return, ast.Assign, ast.Expr)) and isinstance(n.value, ast.Attribute)}
            fields = {mangle(ci, f) for f in fields if f}
            stores = self_stores(fi)
            for f in sorted(fields & set(stores)):
                if f in known or ci.lookup(f)[0] == "prop":
                    continue
                vals = [v for v in stores[f] if not isinstance(v, ast.Constant)]
                if not vals:
                    continue
                inp = reads(prog, fi, ci) - {f}
                names = flow_names(fi, vals)
                ps = {p.name for p in fi.params[1:]} & names
                if inp or ps:
                    out.append((ci, f, inp, fi, ps))
    return out


def flow_names(fi, vals):
    """names the values are computed from, through local variables"""
    todo, seen = list(vals), set()
    while todo:
        for n in ast.walk(todo.pop()):
            if isinstance(n, ast.Name) and n.id not in seen:
                seen.add(n.id)
                for a in ast.walk(fi.node):
                    if isinstance(a, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and a.value is not None:
                        ts = a.targets if isinstance(a, ast.Assign) else [a.target]
                        if any(isinstance(y, ast.Name) and y.id == n.id for x in ts for y in ast.walk(x)):
                            todo.append(a.value)
    return seen


def changed_elsewhere(prog, ci):
    """{field: method} of fields changed after construction"""
    out = {}
    for c in [*ci.mro(), *ci.all_subclasses()]:
        for table in ("methods", "setters"):
            for fi in getattr(c, table).values():
                if fi.name == "__init__":
                    continue
                for f in self_stores(fi):
                    out.setdefault(f, fi)
    return out


def forgotten(prog, ci, name):
    """a method of the class removes the kept value of a cached property"""
    for c in [*ci.mro(), *ci.all_subclasses()]:
        for table in ("methods", "setters", "getters"):
            for fi in getattr(c, table).values():
                s = ast.unparse(fi.node)
                if "del self." + name in s or "cache_clear" in s or "__dict__.pop" in s or "delattr(" in s:
                    return True
    return False


class CacheHook(Hook):
    def __init__(self, prog, specs, rebuilt):
        self.prog, self.specs, self.rebuilt = prog, specs, rebuilt
        self.bycls = {}
        self.errors = {}
        self.where = {}
        self.n_inputs = set()
        self.n_fills = 0
        self.allcaches = {}
        for s in specs:
            for f in s.caches:
                self.allcaches.setdefault(f, []).append(s)

    def of(self, o):
        if o.cls is None:
            return ()
        r = self.bycls.get(o.cls.qualname)
        if r is None:
            names = {c.name for c in o.cls.mro()}
            r = self.bycls[o.cls.qualname] = [s for s in self.specs if s.cls in names and not any(
                (n, c) in NOT_FOR for n in names for c in s.caches)]
        return r

    def fresh(self, o):
        return o.origin is None and o.clone_of is None and o.extra is None

    def clean(self, ip, st, o, s):
        if ("nocache", o.oid) in st.facts:
            return True
        if s.flag is not None:
            v = st.heap.get((o.oid, s.flag))
            if v is not None and v.single_const() == ckey(True):
                return True
        if self.fresh(o) and not any((o.oid, c) in st.heap for c in s.caches):
            return True
        if s.sentinel:
            v = [st.heap.get((o.oid, c)) for c in s.caches]
            if all(x is not None and (x.single_const() == NONE or x.unk == DELETED and not x.objs) for x in v):
                return True
        return False

    def dirty(self, ip, st, o, s, node, what, reason=None):
        self.n_inputs.add((s.i, ip.where(), getattr(node, "lineno", 0)))
        st.facts = st.facts - {("stored", o.oid, s.i)}
        if self.clean(ip, st, o, s):
            return
        st.tags = st.tags | {("dirty", o.oid, s.i, reason)}
        self.where[(o.oid, s.i)] = (ip.loc(node), ip.chain(), what)

    def undirty(self, st, oid, i):
        st.tags = frozenset(t for t in st.tags if t[:3] != ("dirty", oid, i))

    def is_dirty(self, st, oid, i):
        return any(t[:3] == ("dirty", oid, i) for t in st.tags)

    def on_store(self, ip, st, o, field, v, node):
        if o.kind != "inst":
            old = ip.init_value(o.oid, field).sym if (o.origin is not None or o.clone_of is not None) else None
            if old is not None and old == v.sym:
                # put back what was there at entry
                st.tags = frozenset(t for t in st.tags if not (
                    t[0] == "dirty" and t[3] == (o.oid, field) and ("filled", t[1], t[2]) not in st.tags))
                self.touch(ip, st, o, node, field, restored=True)
                return
            self.touch(ip, st, o, node, field, reason=(o.oid, field))
            return
        for s in self.of(o):
            fact, cleared = ("stored", o.oid, s.i), ("cleared", o.oid, s.i)
            if field == s.flag:
                c = v.single_const()
                if c == ckey(True):
                    self.undirty(st, o.oid, s.i)
                    st.tags = st.tags - {cleared}
                elif c == ckey(False):
                    self.n_fills += 1
                    st.tags = st.tags | {("filled", o.oid, s.i)}
                    self.undirty(st, o.oid, s.i)
                    if fact not in st.facts and not self.clean_start(st, o, s):
                        st.tags = st.tags | {cleared}
                        self.where[(o.oid, s.i, "c")] = (ip.loc(node), ip.chain(), ip.where())
            elif field in s.caches:
                st.facts = st.facts | {fact}
                st.tags = st.tags - {cleared}
                if s.flag is None:
                    self.undirty(st, o.oid, s.i)
            elif field in s.inputs:
                if s.flag is None and fact in st.facts and not s.memo:
                    # derived before its source was stored
                    continue
                self.dirty(ip, st, o, s, node, field)
        for cls, fields in self.rebuilt:
            if field in fields:
                st.facts = st.facts | {("rebuilt", o.oid, field)}

    def clean_start(self, st, o, s):
        return self.fresh(o) and not any((o.oid, c) in st.heap for c in s.caches) and s.flag is not None

    def on_mutate(self, ip, st, o, how, node):
        if o.kind in ("dict", "array", "list"):
            self.touch(ip, st, o, node, how)

    def touch(self, ip, st, c, node, how, reason=None, restored=False):
        """content of a container changed: inputs of the objects holding it"""
        def change(o, s, f):
            if o.oid in ip.aug_receivers:
                return
            if restored and ("filled", o.oid, s.i) not in st.tags:
                return
            if s.flag is None and ("stored", o.oid, s.i) in st.facts and not s.memo:
                return
            self.dirty(ip, st, o, s, node, f"{f} ({how})", reason)
        for (oid, f), v in list(st.heap.items()):
            if c.oid in v.objs:
                o = ip.objs[oid]
                if o.kind == "inst":
                    for s in self.of(o):
                        if f in s.inputs:
                            change(o, s, f)
        # not loaded yet: part of a copied object
        if c.oid in ip.cl_owner:
            oid, f = ip.cl_owner[c.oid]
            o = ip.objs[oid]
            if o.kind == "inst" and (oid, f) not in st.heap:
                for s in self.of(o):
                    if f in s.inputs:
                        change(o, s, f)
        # not loaded yet: part of an argument
        if c.origin is not None and len(c.origin) >= 2:
            f = c.origin[-1]
            for s in self.specs:
                if f in s.inputs:
                    for o in ip.objs:
                        if o.kind == "inst" and o.origin == c.origin[:-1] and s in self.of(o):
                            if (o.oid, f) in st.heap and c.oid not in st.heap[(o.oid, f)].objs:
                                continue
                            change(o, s, f)

    def on_clone(self, ip, st, src, dst):
        st.tags = frozenset(t for t in st.tags if not (t[0] in ("dirty", "filled", "cleared") and t[1] == dst.oid))
        new = {(t[0], dst.oid, t[2], None) for t in st.tags if t[0] == "dirty" and t[1] == src.oid}
        if new:
            st.tags = st.tags | new
            for t in new:
                self.where[(dst.oid, t[2])] = self.where.get((src.oid, t[2]), ("?", [], "?"))
        old = st.facts
        st.facts = frozenset(t for t in st.facts if not (t[0] in ("stored", "rebuilt", "nocache") and t[1] == dst.oid))
        if ("nocache", src.oid) in old:
            st.facts = st.facts | {("nocache", dst.oid)}

    def on_hasattr(self, ip, st, o, f, val):
        if val or o.kind != "inst":
            return
        if f in ALWAYS:
            st.facts = st.facts | {("nocache", o.oid)}
        for s in self.of(o):
            if f in s.caches:
                self.undirty(st, o.oid, s.i)

    def on_call(self, ip, st, fi, env, node):
        for s in self.specs:
            if fi.qualname in s.fillers and fi.params:
                me = env.get(fi.params[0].name)
                if me is None:
                    continue
                for oid in me.objs:
                    if self.is_dirty(st, oid, s.i):
                        f = env.get("force_computation")
                        if f is not None and f.single_const() == ckey(True):
                            continue
                        w = self.where.get((oid, s.i), ("?", [], "?"))
                        self.err(ip, node, f"stale|{ip.where()}|{s.cls}.{fi.name}",
                                 f"{s.cls}.{fi.name} may return a result from before the change of {w[2]} at {w[0]}")
        return None

    def on_load(self, ip, st, o, f, node):
        if f in self.allcaches:
            fr = ip.frames[-1]
            for s in self.of(o):
                if f in s.caches and s.flag is not None and fr.fi.qualname not in s.readers:
                    self.err(ip, node, f"direct|{ip.where()}|{f}",
                             f"{f} of {s.cls} is read without asking whether it is up to date")
        for cls, fields in self.rebuilt:
            if f in fields and o.cls is not None and cls in {c.name for c in o.cls.mro()}:
                if ("rebuilt", o.oid, f) not in st.facts and o.oid == getattr(ip, "self_oid", None):
                    self.err(ip, node, f"reuse|{ip.where()}|{f}",
                             f"{f} of {o.cls.name} may stem from an earlier call when it is used here")

    def err(self, ip, node, key, msg):
        self.errors.setdefault(key, (ip.loc(node), msg, ip.chain()))


def make_specs(prog):
    specs = []
    for ci, flag, caches, inp, fi in flag_specs(prog):
        s = Spec(len(specs), ci.name, flag, caches, inp, {fi.qualname})
        # methods that test the flag before using the cached value
        s.readers = {fi.qualname}
        for table in ("methods", "getters", "setters"):
            for g in getattr(ci, table).values():
                r = reads_plain(g)
                if flag in r or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                                    and mangle(g.cls, n.func.attr) in (fi.name, mangle(g.cls, fi.name))
                                    for n in ast.walk(g.node)):
                    s.readers.add(g.qualname)
                    if caches & r and flag in r:
                        s.fillers.add(g.qualname)
        specs.append(s)
    nflag = len(specs)
    for ci, f, inp, fi, ps in lazy_fields(prog):
        if f[0] == "@":
            continue
        s = Spec(len(specs), ci.name, None, {f}, inp, {fi.qualname}, sentinel=True)
        s.readers, s.memo = set(), True
        specs.append(s)
    names = {c.name: c for c in prog.classes.values()}
    nder = 0
    for cls, caches, inputs in DERIVED:
        if cls not in names:
            raise AnalysisBroken(f"class {cls} of the derived-value table not found")
        allf = set(prog.fields(names[cls]))
        if not inputs & allf:
            raise AnalysisBroken(f"{cls} no longer has any of {sorted(inputs)}")
        if not caches & allf:
            continue            # computed on demand
        s = Spec(len(specs), cls, None, caches, inputs, set(), sentinel=True)
        s.readers = set()
        specs.append(s)
        nder += 1
    return specs, nflag, nder


def reads_plain(fi):
    if not fi.params:
        return set()
    me = fi.params[0].name
    return {mangle(fi.cls, n.attr) for n in ast.walk(fi.node)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me}


_S = {}


def mkhooks():
    return (CacheHook(_S["prog"], _S["specs"], REBUILT),)


def collect(prog, entry, res):
    ip, st = res.ip, res.state
    h = ip.hooks[0]
    out = [(k, *v) for k, v in h.errors.items()]
    if st is not None:
        live = set()
        if getattr(ip, "self_oid", None) is not None:
            live.add(ip.self_oid)
        if res.value is not None:
            live |= set(reach(ip, st, res.value))
        for o in list(live):
            live |= set(reach(ip, st, V(objs=frozenset([o]))))
        for t in sorted(st.tags, key=repr):
            if t[0] == "cleared":
                s = h.specs[t[2]]
                w = h.where[(t[1], t[2], "c")]
                out.append((f"clears|{w[2]}|{s.flag}", w[0], f"{s.cls}: update flag {s.flag} is cleared without "
                            f"storing {'/'.join(sorted(s.caches))} from the current inputs", w[1]))
            if t[0] != "dirty":
                continue
            o = ip.objs[t[1]]
            if o.origin is None and o.oid not in live:
                continue
            s = h.specs[t[2]]
            w = h.where.get((t[1], t[2]), ("?", [], "?"))
            name = "/".join(sorted(s.caches))
            out.append((f"exit|{entry.id}|{s.cls}.{name}", w[0],
                        f"{entry.id} may return with {name} of {o.cls.name} not matching its changed {w[2]}", w[1]))
        # stored arrays handed out by the getter
        if res.value is not None and entry.cls is not None and getattr(ip, "self_oid", None) is not None:
            names = {c.name for c in entry.cls.mro()}
            got = set(reach(ip, st, res.value))
            for s in h.specs:
                if s.cls not in names or (s.flag is None and not s.caches & HANDED):
                    continue
                for c in s.caches:
                    v = st.heap.get((ip.self_oid, c))
                    if v is None:
                        continue
                    for o in reach(ip, st, v):
                        if o in got and ip.objs[o].kind in ("array", "list", "inst"):
                            out.append((f"handed|{entry.id}|{c}", f"{entry.fi.module.relpath}:{entry.fi.node.lineno}",
                                        f"{entry.id} hands out the stored {c} itself", []))
    return out, len(h.n_inputs), h.n_fills


def run(ctx):
    specs, nflag, nder = make_specs(ctx.prog)
    _S.update(prog=ctx.prog, specs=specs)
    own, selfs = sweep_all(ctx, mkhooks=mkhooks, extra=collect, options="single" if ctx.thorough else None)
    findings = []
    for s in own:
        for k, loc, msg, chain in s.extra[0]:
            findings.append(Finding(k.replace("dsptoolbox.", "").replace(" ", "_"), loc, msg, chain))
    hits = {s.name for s in selfs if s.extra[0]}
    # settings not stored because they compare equal to the present ones
    groups = {}
    for ci, flag, caches, inp, fi in flag_specs(ctx.prog, True):
        groups.setdefault(ci.qualname, (ci, set(), set()))[1].update(inp)
    skips, nskip = skipped_updates(ctx.prog, list(groups.values()))
    for fi, node, field, missing in skips:
        own_fi = fi.module is not ctx.selfmod
        if own_fi:
            findings.append(Finding(f"partial|{fi.qualname}|{field}".replace("dsptoolbox.", ""), f"{fi.module.relpath}:{node.lineno}",
                                    f"{fi.qualname} keeps the present {field} although only part of the settings are known to be "
                                    f"unchanged" + (f" (not compared: {', '.join(map(str, missing))})" if missing else "")))
        else:
            hits.add(fi.name)
    lazy = lazy_fields(ctx.prog)
    for ci, f, inp, fi, ps in lazy:
        fs = []
        loc = f"{fi.module.relpath}:{fi.node.lineno}"
        if ps:
            fs.append(Finding(f"memo|{fi.qualname}|{f}".replace("dsptoolbox.", ""), loc,
                              f"{fi.qualname} keeps {f} from the first call although it depends on {', '.join(sorted(ps))}"))
        if f[0] == "@" and not forgotten(ctx.prog, ci, f[1:]):
            ch = changed_elsewhere(ctx.prog, ci)
            for g in sorted(inp & set(ch)):
                fs.append(Finding(f"memo|{fi.qualname}|{g}".replace("dsptoolbox.", ""), loc,
                                  f"{fi.qualname} is kept by its decorator although {ch[g].qualname} changes {g}"))
        if ci.module is ctx.selfmod:
            hits.update(fi.name for _ in fs)
        else:
            findings += fs
    cov = coverage(own)
    cov["lazily_computed_fields"] = sum(ci.module is not ctx.selfmod for ci, *_ in lazy)
    cov["skipped_updates_judged"] = nskip
    cov["flag_caches"] = nflag
    cov["derived_value_rules"] = nder
    cov["input_writes_tracked"] = sum(s.extra[1] for s in own)
    cov["cache_fills_seen"] = sum(s.extra[2] for s in own)
    cov["caches"] = [f"{s.cls}.{'/'.join(sorted(s.caches))} <- {', '.join(sorted(s.inputs))}" for s in specs]
    cov["rule"] = "no public operation leaves, uses or hands out a cached value that does not match the current inputs"
    return findings, hits, cov
