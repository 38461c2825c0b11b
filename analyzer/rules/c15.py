"""C15: no hidden global effects; deterministic results."""
import ast
from .. import libmodel as L
from ..core import Finding
from ..driver import Entry
from ..facts import sweep_all, coverage
from ..summary import sweep

EXPLANATION = """Every public operation, option-member method and constructor is interpreted abstractly; each write that can
reach shared state is a violation: attributes of enumeration members, of classes and modules, global statements, content of
module-level, class-level or default-argument objects and of objects handed out by cached functions, and configuration of
external libraries outside the documented audio-device functions. A default-argument, class-level or module-level mutable
object may not be stored in a result either. Calls of random generators, clocks and process-dependent builtins are attributed
to the public operations that reach them, which must be in the confirmed list of documented random operations. Helper
functions that are only stored and called later are interpreted on their own; module and class bodies are scanned for the
same calls."""
ASSUMPTIONS = ["matplotlib figures, warnings and the console are not counted as state",
               "external functions outside the modelled configuration list have no global effect"]
MINIMUM = {"operations_analysed": 640, "module_level_calls_checked": 10}

AUDIO = {("external", "sounddevice.default", f) for f in ("blocksize", "device", "latency", "samplerate")}
AUDIO_OPS = {"set_blocksize": {"blocksize"}, "set_latency": {"latency"}, "set_device": {"device", "samplerate"},
             "play": {"device"}, "record": {"device"}, "play_and_record": {"device"}}
RANDOM_OPS = {"generators.generators:noise", "generators.generators:oscillator",
              "room_acoustics.room_acoustics:generate_synthetic_rir", "transforms.transforms:lpc",
              "standard.other:dither", "effects.effects:LFO.get_waveform", "effects.effects:LFO.plot_waveform",
              "effects.effects:Tremolo.apply", "effects.effects:Chorus.apply",
              "effects.effects:LFO.__init__"}
# classes that keep a random generator function to call it later
RANDOM_CLASSES = {"LFO"}
OPEN_OK = ("save_", "load_")

SELFCHECK = '''
from __future__ import annotations
import functools
import numpy as np
from numpy.typing import NDArray
from .classes.signal import Signal
from .standard.enums import Window

_TABLE = {"a": 1}
_COUNT = 0

class Holder:
    shared: list = []

    def add(self, x):
        self.shared.append(x)

@functools.lru_cache
def _window(n):
    return np.ones(n)

def _collect(x, acc=[]):
    acc.append(x)
    return len(acc)

def bad_enum(w: Window):
    w.marker = 1
    return w

def bad_module(x: float):
    _TABLE["a"] = x
    return x

def bad_global(x: float):
    global _COUNT
    _COUNT = _COUNT + 1
    return x

def bad_default(x: float):
    return _collect(x)

def bad_class(x: float):
    h = Holder()
    h.add(x)
    return x

def bad_config(x: float):
    np.seterr(all="ignore")
    return 1 / x

def bad_seed(x: float):
    return x + np.random.normal()

def bad_rng(x: NDArray[np.float64]):
    rng = np.random.default_rng()
    return x + rng.normal(size=3)

def bad_cached(n: int):
    w = _window(n)
    w *= 2
    return w.sum()

def good_pure(w: Window, x: NDArray[np.float64]):
    acc = []
    acc.append(x.copy())
    with np.errstate(all="ignore"):
        y = _window(3) * 2
    return _TABLE["a"] * y.sum() + len(_TABLE)
'''
SELF_BAD = {"bad_enum", "bad_module", "bad_global", "bad_default", "bad_class", "bad_config", "bad_seed", "bad_rng",
            "bad_cached"}


def sh(x):
    return str(x).replace("dsptoolbox.", "").replace(" ", "_")


def is_random(q):
    return q.startswith(L.RANDOM_PREFIX) or q in L.TIME_FUNCS or q in ("builtins.hash", "builtins.id", "builtins.input")


def judge(s, defaults, may_random=False):
    out = []
    for k, loc, chain in s.enum_writes:
        out.append(Finding(f"enum|{sh(k[0])}.{k[1]}", loc,
                           f"{s.id} changes attribute {k[1]} of the shared members of {sh(k[0])}", chain))
    for k, loc, chain in s.global_writes:
        if k in AUDIO and s.id.startswith("audio_io.audio_io:") and k[2] in AUDIO_OPS.get(s.id.split(":")[1], ()):
            continue
        out.append(Finding(f"global|{s.id}|{sh('.'.join(k[1:]))}", loc, f"{s.id} writes {'.'.join(k[1:])}", chain))
    for path, how, loc, chain in s.mutations:
        if path[0].startswith("<") and path[0] != "<rec>":
            out.append(Finding(f"shared|{sh('.'.join(path))}", loc,
                               f"{s.id} modifies the shared object {sh('.'.join(path))} ({how})", chain))
        elif path[0] in defaults:
            out.append(Finding(f"default|{s.id}|{path[0]}", loc,
                               f"{s.id} modifies its parameter {path[0]}, whose default object is shared", chain))
    for path, f, cls, kinds, loc, chain in s.changed:
        if path[0].startswith("<") and path[0] != "<rec>":
            out.append(Finding(f"shared|{sh('.'.join(path))}.{f}", loc,
                               f"{s.id} changes {f} of the shared object {sh('.'.join(path))}", chain))
    for owner, path, origin, tn in s.shares:
        if origin[0].startswith("<") and origin[0] not in ("<rec>", "<enum>"):
            out.append(Finding(f"handed|{s.id}|{sh('.'.join(origin))}", s.loc,
                               f"{s.id} returns {owner} holding the shared object {sh('.'.join(origin))}"))
    for path, origin, tn in s.stored:
        if origin[0].startswith("<") and origin[0] not in ("<rec>", "<enum>"):
            out.append(Finding(f"stored|{s.id}|{sh('.'.join(origin))}", s.loc,
                               f"{s.id} keeps the shared object {sh('.'.join(origin))} in {'.'.join(path)}"))
        elif origin[0] in defaults and len(origin) == 1:
            out.append(Finding(f"stored|{s.id}|{origin[0]}", s.loc,
                               f"{s.id} keeps its parameter {origin[0]}, whose default object is shared, in "
                               f"{'.'.join(path)}"))
    for q, locs in s.extcalls.items():
        w, loc = locs[0]
        if q in L.GLOBAL_CONFIG:
            out.append(Finding(f"config|{s.id}|{q}", loc, f"{s.id} reaches {q} in {sh(w)}"))
        elif q == "builtins.input" and s.id == "audio_io.audio_io:set_device":
            continue                    # documented interactive choice
        elif is_random(q) and s.id not in RANDOM_OPS and not may_random:
            out.append(Finding(f"random|{s.id}|{q}", loc,
                               f"{s.id} is not a documented random operation but reaches {q} in {sh(w)}"))
        elif q == "builtins.open" and not s.name.startswith(OPEN_OK):
            out.append(Finding(f"open|{s.id}", loc, f"{s.id} opens a file in {sh(w)}"))
        elif q in ("builtins.exec", "builtins.globals"):
            out.append(Finding(f"{q}|{s.id}", loc, f"{s.id} reaches {q} in {sh(w)}"))
    return out


def mutable_defaults(fi):
    return {p.name for p in fi.params if isinstance(p.default, (ast.List, ast.Dict, ast.Set))}


def random_helpers(prog, helpers):
    """those of the helpers that only documented random operations refer to"""
    fns = [f for f in prog.functions if "_verif_selfcheck" not in f.qualname]
    names = {}
    for f in fns:
        names[f] = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)} | \
                   {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
    ok = set()
    grow = True
    while grow:
        grow = False
        for h in helpers:
            if h.fi in ok or not h.fi.name.startswith("_"):
                continue
            users = [f for f in fns if f is not h.fi and h.fi.name in names[f]]
            if users and all(f in ok or (f.cls is not None and f.cls.name in RANDOM_CLASSES)
                             or Entry(f).id in RANDOM_OPS for f in users):
                ok.add(h.fi)
                grow = True
    return ok


def module_level(prog):
    """calls executed on import"""
    out, n = [], 0
    for m in prog.modules.values():
        if "_verif_selfcheck" in m.name:
            continue

        def visit(node):
            nonlocal n
            for c in ast.iter_child_nodes(node):
                if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                    for d in list(c.args.defaults) + [x for x in c.args.kw_defaults if x is not None]:
                        visit(ast.Expr(d))
                    continue
                if isinstance(c, ast.If) and "__name__" in ast.unparse(c.test):
                    continue            # run as a script
                if isinstance(c, ast.Call):
                    n += 1
                    r = prog.resolve_expr(m, c.func)
                    if r and r[0] == "ext" and r[1] == "seaborn.set_style":
                        continue        # plot style, set once on import
                    if r and r[0] == "ext" and (r[1] in L.GLOBAL_CONFIG or is_random(r[1])):
                        out.append(Finding(f"import|{m.relpath}|{r[1]}", f"{m.relpath}:{c.lineno}",
                                           f"importing {m.relpath} calls {r[1]}"))
                visit(c)
        visit(m.tree)
    return out, n


def run(ctx):
    prog = ctx.prog
    own, selfs = sweep_all(ctx, enums=True, options="pairs" if ctx.thorough else None)
    ents = {e.id: e for e in ctx.ents}
    findings = [f for s in own for f in judge(s, mutable_defaults(ents[s.id].fi))]
    hits = {s.name for s in selfs if judge(s, ())}
    cov = coverage(own)
    reached = set().union(*(s.functions for s in own))
    rest = [Entry(f) for f in prog.functions if f.cls is None and f.kind == "func" and f.parent is None
            and f.qualname not in reached and "_verif_selfcheck" not in f.qualname]
    rnd = random_helpers(prog, rest)
    for i, s in sweep(prog, rest) if rest else []:
        if not isinstance(s, tuple):
            findings += judge(s, mutable_defaults(rest[i].fi), rest[i].fi in rnd)
    ml, n = module_level(prog)
    findings += ml
    cov["module_level_calls_checked"] = n
    cov["helper_functions_interpreted_alone"] = len(rest)
    cov["documented_random_operations"] = len(RANDOM_OPS)
    cov["rule"] = "no write reaches shared state; random sources only below documented random operations"
    return findings, hits, cov
