"""Abstract values and states."""
from __future__ import annotations

E = frozenset()
NONE = ("n",)


def ckey(v):
    if v is None:
        return NONE
    return ("c", type(v).__name__, v)


class V:
    """objs: heap objects the value may be (or be a view of);
    consts: known constants / enum members / functions / classes it may be;
    unk: type tags of the untracked part; sym: symbolic identity or None;
    deps: tokens of entry inputs it may depend on; unit: physical unit or None;
    ub: may be unbound."""
    __slots__ = ("objs", "consts", "unk", "sym", "deps", "unit", "ub", "weak")

    def __init__(self, objs=E, consts=E, unk=E, sym=None, deps=E, unit=None, ub=False, weak=False):
        self.objs, self.consts, self.unk = objs, consts, unk
        self.sym, self.deps, self.unit, self.ub = sym, deps, unit, ub
        self.weak = weak

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and self.objs == o.objs and self.consts == o.consts
                             and self.unk == o.unk and self.sym == o.sym and self.deps == o.deps
                             and self.unit == o.unit and self.ub == o.ub)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def w(self, **kw):
        d = dict(objs=self.objs, consts=self.consts, unk=self.unk, sym=self.sym,
                 deps=self.deps, unit=self.unit, ub=self.ub, weak=self.weak)
        d.update(kw)
        return V(**d)

    def adddeps(self, deps):
        if not deps or deps <= self.deps:
            return self
        return self.w(deps=self.deps | deps)

    def single_const(self):
        if len(self.consts) == 1 and not self.objs and not self.unk:
            return next(iter(self.consts))
        return None

    def __repr__(self):
        return f"V(objs={set(self.objs)},c={set(self.consts)},u={set(self.unk)},sym={self.sym},deps={set(self.deps)})"


MAXC = 48


def join_v(a, b):
    if a is b:
        return a
    if a == b:
        return a
    consts = a.consts | b.consts
    unk = a.unk | b.unk
    if len(consts) > MAXC:
        consts = E
        unk = unk | frozenset(["any"])
    # a known numeric constant next to an unknown number is just a number
    if unk and consts:
        consts2 = frozenset(c for c in consts if not (c[0] == "c" and c[1] in ("int", "float") and (c[1] in unk)))
        if consts2 != consts:
            consts = consts2
    u = a.unit if a.unit == b.unit else (a.unit if b.consts and not b.unk and not b.objs and b.unit is None
                                         else b.unit if a.consts and not a.unk and not a.objs and a.unit is None
                                         else None)
    return V(a.objs | b.objs, consts, unk, a.sym if a.sym == b.sym else None,
             a.deps | b.deps, u, a.ub or b.ub, a.weak and b.weak)


class State:
    __slots__ = ("env", "heap", "odeps", "facts", "refined", "sticky", "tags")

    def __init__(self, env=None, heap=None, odeps=None, facts=E, refined=None, sticky=E, tags=E):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.odeps = odeps if odeps is not None else {}
        self.facts = facts
        self.refined = refined if refined is not None else {}
        self.sticky = sticky
        self.tags = tags            # typestate tags (may), join = union

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.odeps), self.facts,
                     dict(self.refined), self.sticky, self.tags)

    def become(self, o):
        self.env, self.heap, self.odeps = o.env, o.heap, o.odeps
        self.facts, self.refined, self.sticky, self.tags = o.facts, o.refined, o.sticky, o.tags


def same_state(a, b):
    return (a.env == b.env and a.heap == b.heap and a.odeps == b.odeps and a.facts == b.facts
            and a.sticky == b.sticky and a.tags == b.tags)
