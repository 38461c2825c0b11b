"""C01: public calls never modify the data of their arguments."""
from ..core import Finding
from ..facts import DATA, SETTINGS, class_table, check_table, sweep_all, coverage

EXPLANATION = """Every public function, constructor, setter and method is interpreted abstractly on symbolic arguments, once
per kind of object it accepts (interprocedural, path- and alias-sensitive heap). Each in-place operation (item or slice
assignment, augmented assignment, mutating array/list/dict method, numpy out-parameter) whose target may be, or be a
view of, an object reachable from an argument is a violation, and so is a data field of an argument object that differs
from its initial content on normal return."""
ASSUMPTIONS = ["numpy and scipy functions outside the modelled list of in-place operations and views do not modify "
               "their arguments", "callables passed by the user do not modify their arguments"]
MINIMUM = {"operations_analysed": 540, "known_fields_present": 150}

SELFCHECK = '''
from __future__ import annotations
import numpy as np
from numpy.typing import NDArray
from .classes.signal import Signal
from .classes.filter import Filter

def bad_view(x: NDArray[np.float64]):
    y = np.atleast_2d(x)[:, 0]
    y /= 2
    return y

def bad_list(xs: list):
    def inner(q):
        q.pop(0)
    inner(xs)
    return len(xs)

def bad_signal(sig: Signal):
    sig.time_data = sig.time_data * 2
    return sig.copy()

def bad_reader(sig: Signal):
    td = sig.time_data
    td[:, 0] = 0
    return td.sum()

def good_copy(x: NDArray[np.float64], sig: Signal):
    y = np.atleast_2d(x.copy())[0]
    y /= 2
    s = sig.copy()
    s.time_data = s.time_data + 1
    s.time_data[0] = 1
    return s
'''
SELF_BAD = {"bad_view", "bad_list", "bad_signal", "bad_reader"}


def in_data(tab, path, field, cls):
    if cls in ("any", "dict", "list", "tuple", "set", "array"):
        return True
    return field in tab.get(cls, ())


def judge(s, tab, settings):
    out = []
    for path, how, loc, chain in s.mutations:
        if path[0] == "self" or path[0].startswith("<"):
            continue
        # entries of settings dictionaries belong to C02
        if any(p in settings for p in path[1:]):
            continue
        out.append(Finding(f"{s.id}|{path[0]}", loc,
                           f"{s.id}({path[0]}) modifies the contents of argument {'.'.join(path)} in place ({how})",
                           chain))
    for path, f, cls, kinds, loc, chain in s.changed:
        if path[0] == "self" or path[0].startswith("<"):
            continue
        if any(p in settings for p in path[1:]):
            continue
        if in_data(tab, path, f, cls):
            out.append(Finding(f"{s.id}|{path[0]}", loc,
                               f"{s.id}({path[0]}) leaves {'.'.join(path)}.{f} of its argument changed", chain))
    return out


def run(ctx):
    prog = ctx.prog
    present = check_table(prog)
    tab = class_table(prog, DATA)
    settings = set().union(*SETTINGS.values())
    own, selfs = sweep_all(ctx, enums=False)
    findings = [f for s in own for f in judge(s, tab, settings)]
    hits = {s.name for s in selfs if judge(s, tab, settings)}
    cov = coverage(own)
    cov["known_fields_present"] = present
    cov["argument_objects_tracked"] = sum(s.n_args for s in own)
    cov["rule"] = "no in-place operation reaches an argument; data fields of arguments equal their initial content"
    return findings, hits, cov
