"""Entry points: which public operations exist, on which abstract arguments
they are analysed, and how results are gathered."""
from __future__ import annotations
import ast
import sys

from .program import Program, FuncInfo, ClassInfo, public_entries, ANY, PKG
from .values import V, E, NONE, ckey, State
from .interp import Interp, Budget, Dead

sys.setrecursionlimit(12000)


class Entry:
    """A public operation; `cls` is the concrete class for methods."""

    def __init__(self, fi, cls=None):
        self.fi, self.cls = fi, cls
        short = fi.module.name[len(PKG) + 1:]
        nm = f"{cls.name}.{fi.name}" if cls is not None else fi.name
        if fi.kind == "setter":
            nm += "="
        self.name = nm
        self.id = f"{short}:{nm}" if cls is None else f"{cls.module.name[len(PKG) + 1:]}:{nm}"

    def __repr__(self):
        return f"<entry {self.id}>"


def is_public_name(n):
    return not n.startswith("_") or n in ("__init__", "__getitem__", "__len__", "__str__", "__iter__", "__call__",
                                          "__add__", "__eq__")


def enum_entries(prog):
    out = []
    for q in sorted(prog.classes):
        ci = prog.classes[q]
        if not ci.is_enum or ci.module.name.split(".")[-1].startswith("_verif"):
            continue
        for table in ("methods", "getters", "setters"):
            for name, fi in getattr(ci, table).items():
                if is_public_name(name):
                    out.append(Entry(fi, ci))
    return out


def entries(prog):
    funcs, classes = public_entries(prog)
    out = [Entry(f) for f in funcs]
    seen = set()
    for ci in classes:
        if ci.is_enum:
            continue
        done = set()
        for c in ci.mro():
            for table in ("methods", "getters", "setters"):
                for name, fi in getattr(c, table).items():
                    if not is_public_name(name):
                        continue
                    if (table == "setters", name) in done:
                        continue
                    done.add((table == "setters", name))
                    out.append(Entry(fi, ci))
    return out


def param_types(prog, fi, p, cls):
    t = prog.ann_types(fi.module, p.ann, cls or fi.cls)
    if t is None or t == ANY:
        d = p.default
        if isinstance(d, ast.Constant) and d.value is not None:
            t2 = frozenset([(type(d.value).__name__,)])
            return t2 if t is None else t
        if isinstance(d, ast.Attribute):
            r = prog.resolve_expr(fi.module, d.value)
            if r and r[0] == "class" and r[1].is_enum:
                return frozenset([("enum", r[1])])
        if t is None:
            return ANY
    if isinstance(p.default, ast.Constant) and p.default.value is None:
        t = t | frozenset([("none",)])
    return t


class Result:
    pass


def run(prog, entry, restrict=None, hooks=(), **opt):
    """Interpret one entry. restrict: param -> frozenset of type atoms or V"""
    fi, cls = entry.fi, entry.cls
    ip = Interp(prog, dict(opt, hooks=hooks, restrict=restrict or {}))
    args = {}
    params = list(fi.params)
    restrict = restrict or {}
    for i, p in enumerate(params):
        if i == 0 and fi.kind in ("method", "getter", "setter"):
            if cls.is_enum:
                args[p.name] = V(consts=frozenset(("e", cls.qualname, m) for m in cls.members
                                                  if opt.get("selfmember") in (None, m)))
                ip.self_oid = None
                continue
            if fi.name == "__init__":
                oid = ip.new_obj("inst", cls, None, None)
                args[p.name] = V(objs=frozenset([oid]))
            else:
                args[p.name] = ip.from_types(frozenset([("inst", cls)]), (p.name,), deps=E)
            ip.self_oid = next(iter(args[p.name].objs))
            continue
        if i == 0 and fi.kind == "classmethod":
            args[p.name] = V(consts=frozenset([("k", cls)]))
            continue
        if p.kind == "vararg":
            t = param_types(prog, fi, p, cls)
            args[p.name] = ip.from_types(frozenset([("vartuple", t)]), (p.name,))
            continue
        if p.kind == "kwarg":
            args[p.name] = ip.from_types(frozenset([("dict", ANY)]), (p.name,))
            continue
        r = restrict.get(p.name)
        if isinstance(r, V):
            args[p.name] = r
        else:
            args[p.name] = ip.from_types(r if r is not None else param_types(prog, fi, p, cls), (p.name,))
    res = Result()
    res.ip, res.entry, res.args = ip, entry, dict(args)
    res.value, res.state = None, None
    res.budget = False
    try:
        res.value, res.state = ip.run_entry(fi, args)
    except Budget:
        res.budget = True
    return res


def _kind_atoms(t):
    """atoms that denote objects of the package (or lists of them)"""
    out = []
    for a in sorted(t, key=repr):
        if a[0] == "inst":
            out.append(a)
        elif a[0] in ("list", "vartuple") and len(a) > 1 and any(x[0] == "inst" for x in a[1]):
            out.append(a)
    return out


def alternatives(prog, entry, subclasses=()):
    """One restriction per combination of the kinds of object accepted.
    subclasses: names of classes also tried where a base class is declared."""
    import itertools
    fi, cls = entry.fi, entry.cls
    per = []
    for i, p in enumerate(fi.params):
        if i == 0 and fi.kind in ("method", "getter", "setter", "classmethod"):
            continue
        if p.kind in ("vararg", "kwarg"):
            continue
        t = param_types(prog, fi, p, cls)
        k = _kind_atoms(t)
        alts = []
        if len(k) > 1 or (k and any(a[0] not in ("inst", "list", "vartuple", "none") for a in t)):
            rest = frozenset(a for a in t if a not in k)
            for a in k:
                keep = frozenset(x for x in rest if x[0] == "none")
                alts.append(frozenset([a]) | keep)
            other = frozenset(x for x in rest if x[0] not in ("none",))
            if other:
                alts.append(rest)
        elif k:
            alts.append(t)
        if k and subclasses:
            for a in k:
                base = a[1] if a[0] == "inst" else None
                if base is None:
                    continue
                for sc in base.all_subclasses():
                    if sc.name in subclasses and not any(sc == x[1] for x in k if x[0] == "inst"):
                        alts.append(frozenset([("inst", sc)]) | frozenset(x for x in t if x[0] == "none"))
        if len(alts) > 1:
            per.append((p.name, alts))
    if not per:
        return [None]
    combos = list(itertools.product(*[a for _, a in per]))
    if len(combos) > 16:
        # vary one parameter at a time
        combos = []
        for i, (nm, alts) in enumerate(per):
            for a in alts:
                combos.append(tuple(a if j == i else per[j][1][0] for j in range(len(per))))
    return [dict(zip([n for n, _ in per], c)) for c in combos]


def option_values(prog, entry):
    """[(parameter, [type alternative per selectable option])]: members of
    enumerations, truth values, and None versus given"""
    fi, cls = entry.fi, entry.cls
    out = []
    for i, p in enumerate(fi.params):
        if i == 0 and fi.kind in ("method", "getter", "setter", "classmethod"):
            continue
        if p.kind in ("vararg", "kwarg"):
            continue
        t = param_types(prog, fi, p, cls)
        alts = []
        rest = []
        for a in sorted(t, key=repr):
            if a[0] == "enum":
                for m in a[1].members:
                    alts.append(frozenset([("member", a[1].qualname, m)]))
            elif a[0] == "bool":
                alts += [frozenset([("const", True)]), frozenset([("const", False)])]
            elif a[0] == "none":
                alts.append(frozenset([("none",)]))
            else:
                rest.append(a)
        if alts:
            if rest:
                alts.append(frozenset(rest))
            if len(alts) > 1:
                out.append((p.name, alts))
    return out


def option_alternatives(prog, entry, base, pairwise=False, cap=160):
    """base alternatives, each combined with one (or two) restricted options"""
    import itertools
    opts = option_values(prog, entry)
    out = []
    for r in base:
        r = dict(r or {})
        singles = [(n, a) for n, alts in opts for a in alts if n not in r]
        new = [dict(r, **{n: a}) for n, a in singles]
        if pairwise:
            pr = [dict(r, **{n1: a1, n2: a2}) for (n1, a1), (n2, a2) in itertools.combinations(singles, 2) if n1 != n2]
            new += pr[:max(0, cap - len(new))]
        out += new
    return out


def alt_name(restrict):
    if not restrict:
        return ""
    def one(t):
        if all(a[0] in ("member", "const", "none") for a in t):
            return "|".join(sorted(str(a[-1]) for a in t))
        return "|".join(sorted(a[1].name if a[0] in ("inst", "enum") else
                               (a[0] + ":" + "/".join(sorted(x[1].name if x[0] == "inst" else x[0] for x in a[1]))
                                if a[0] in ("list", "vartuple") and len(a) > 1 else a[0]) for a in t))
    return ",".join(f"{n}={one(t)}" for n, t in sorted(restrict.items()))
