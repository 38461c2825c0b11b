"""C13: no accepted call fails with an internal programming error."""
from ..core import Finding
from ..driver import Entry, entries
from ..interp import Hook
from ..facts import sweep_all, coverage
from ..program import AnalysisBroken
from ..summary import sweep
from .. import lint

EXPLANATION = """Every public operation is interpreted abstractly once per kind of object it accepts and once more for each
choice (and each pair of choices) among its options: enumeration members, truth values, and None versus given. Along every
feasible path the following are violations when they are certain for the values considered: reading a local name that no
path has assigned, a call whose arguments do not fit the signature of the package function, an attribute that no class of
the receiver has, a property without setter, arithmetic, ordering, subscripting or attribute access on None, wrong number
of unpacked values, calling or iterating something that cannot be, falling off the end of a function that announces a
result, a returned package object of another class than announced, and an operation that cannot complete without any
deliberate raise or assert on its paths. Helper functions that are only stored and called later are interpreted on their
own. Module-wide: names that resolve nowhere, imports and __all__ entries that do not exist, numpy attributes unknown to the
installed stubs."""
ASSUMPTIONS = ["errors that depend on array contents or shapes inside numpy and scipy are not examined",
               "names, attributes and arguments are resolved with the declared annotations of the public parameters"]
MINIMUM = {"operations_analysed": 600, "operation_variants": 4000, "global_names_checked": 2000,
           "numpy_attributes_checked": 1000}

# documented as not available for these structures (raise NotImplementedError)
NEVER = {f"classes.fir_filter_realtime:{c}.{m}" for c in ("FIRFilterOverlapSave", "FIRUniformPartitioned",
         "FIRUniformPartitionedMultichannel") for m in ("process_sample", "set_n_channels")}
# announces its base but is a parallel implementation of it
RETURN_OK = {("filterbanks._filterbank:LRFilterBank.copy", "LRFilterBank")}

SELFCHECK = '''
from __future__ import annotations
import numpy as np
from .classes.signal import Signal
from .standard.enums import SpectrumMethod

def _helper(a, b):
    return a + b

def bad_unbound(method: SpectrumMethod):
    if method == SpectrumMethod.FFT:
        out = 1
    return out

def bad_call(x: float):
    return _helper(x, c=2)

def bad_attribute(s: Signal):
    return s.sampling_rate

def bad_none(x: float, y: float | None = None):
    return x * y

def bad_unpack(x: float):
    a, b = (x, x, x)
    return a

def bad_end(x: float) -> float:
    if x > 3:
        return x

def bad_kind(s: Signal) -> Signal:
    return SpectrumMethod

def bad_return(s: Signal, flag: bool = True) -> Signal:
    if flag:
        return None
    return s.copy()

def good_all(s: Signal, method: SpectrumMethod, y: float | None = None) -> Signal:
    match method:
        case SpectrumMethod.FFT:
            q = 1
        case SpectrumMethod.WelchPeriodogram:
            q = 2
        case _:
            raise ValueError("no")
    if y is None:
        y = 2
    r = s.copy()
    r.time_data = r.time_data * (y * q + _helper(y, b=1))
    return r
'''
SELF_BAD = {"bad_unbound", "bad_call", "bad_attribute", "bad_none", "bad_unpack", "bad_end", "bad_return"}

TEXT = {
    "unbound": lambda k: f"{k[0]} reads local name {k[1]} that is not assigned on this path",
    "badcalls": lambda k: f"{k[0]} calls {k[1]}: {k[2]}",
    "attrerrs": lambda k: f"{k[0]}: {k[1]}",
    "typeerrs": lambda k: f"{k[0]}: {k[1]}",
    "none_returns": lambda k: f"{k} can end without returning its announced result",
}


def sh(x):
    return str(x).replace("dsptoolbox.", "").replace(" ", "_")


def variant(s):
    return s.id + (f"[{s.alt}]" if s.alt else "")


def judge(s, prog, ent):
    out = []
    for nm, text in TEXT.items():
        for k, loc, chain in getattr(s, nm):
            kk = "|".join(sh(x) for x in k) if isinstance(k, tuple) else sh(k)
            out.append(Finding(f"{nm}|{kk}", loc, f"{text(k)} (in {variant(s)})", chain))
    if not s.normal and not s.deliberate and not s.budget:
        out.append(Finding(f"{s.id}|never", s.loc, f"{variant(s)} cannot complete and raises no deliberate error"))
    elif not s.normal and not s.alt and s.id not in NEVER and not s.budget:
        out.append(Finding(f"{s.id}|never", s.loc, f"{s.id} cannot complete for any argument"))
    if s.normal and ent is not None:
        out += kinds(s, prog, ent)
    return out


def kinds(s, prog, ent):
    r = ent.fi.node.returns
    if r is None or ent.fi.name == "__init__":
        return []
    t = prog.ann_types(ent.fi.module, r, ent.cls)
    if not t or any(a[0] in ("any", "ext", "callable") for a in t):
        return []
    out = []
    names = {a[1] for a in t if a[0] == "inst"}
    byname = {c.name: c for c in prog.classes.values()}
    for x in s.rettypes:
        if x in byname and not byname[x].is_enum:
            if (s.id, x) in RETURN_OK or any(byname[x].is_sub(c) for c in names):
                continue
            out.append(Finding(f"{s.id}|returns|{x}", s.loc, f"{variant(s)} announces {sh(_u(r))} and returns {x}"))
        elif x == "const:('n',)" and not any(a[0] == "none" for a in t):
            out.append(Finding(f"{s.id}|returns|None", s.loc, f"{variant(s)} announces {sh(_u(r))} and may return None"))
    return out


def _u(r):
    import ast
    return ast.unparse(r)


class Unset(Hook):
    def on_unset(self, ip, st, o, f, node):
        ip.attrerrs.setdefault((ip.where(), f"attribute {f} of {ip.objs[o].cls.name} is not assigned on this path"),
                               (ip.loc(node), ip.chain()))


def mkhooks():
    return (Unset(),)


def run(ctx):
    prog = ctx.prog
    own, selfs = sweep_all(ctx, enums=True, mkhooks=mkhooks, options="all" if ctx.thorough else "pairs", selfoptions=True)
    ents = {e.id: e for e in ctx.ents}
    selfents = {e.id: e for e in ctx.selfents}
    findings = [f for s in own for f in judge(s, prog, ents.get(s.id))]
    hits = {s.name for s in selfs if judge(s, prog, selfents.get(s.id))}
    cov = coverage(own)
    # functions only stored and called later
    reached = set()
    for s in own:
        reached |= s.functions
    rest = [f for f in prog.functions if f.cls is None and f.kind == "func" and f.parent is None
            and f.qualname not in reached and "_verif_selfcheck" not in f.qualname]
    if rest:
        extra = [Entry(f) for f in rest]
        for i, s in sweep(prog, extra):
            if isinstance(s, tuple):
                continue
            findings += [f for f in judge(s, prog, None)]
            reached |= s.functions
    cov["helper_functions_interpreted_alone"] = len(rest)
    cov["functions_reached"] = len(reached)
    cov["functions_in_package"] = sum(1 for f in prog.functions if "_verif_selfcheck" not in f.qualname)
    names, n1 = lint.undefined_names(prog)
    miss, n2 = lint.missing_imports(prog)
    npn, n3 = lint.numpy_names(prog)
    for m, path, nm, line in names:
        f = Finding(f"name|{m.relpath}|{nm}", f"{m.relpath}:{line}", f"name {nm} is not defined (scope {'.'.join(path)})")
        findings.append(f)
    for m, what, line in miss:
        findings.append(Finding(f"import|{m.relpath}|{sh(what)}", f"{m.relpath}", f"{what} does not exist"))
    for m, what, line in npn:
        findings.append(Finding(f"numpy|{m.relpath}|{what}", f"{m.relpath}:{line}", f"{what} does not exist"))
    cov["global_names_checked"] = n1
    cov["imports_and_exports_checked"] = n2
    cov["numpy_attributes_checked"] = n3
    cov["rule"] = "no certain unbound name, wrong call, missing attribute, use of None or wrong kind of result on any path"
    return findings, hits, cov
