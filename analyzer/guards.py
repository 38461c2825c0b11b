"""Argument guards: which conditions hold at every normal exit because the
operation raises otherwise, as canonical comparisons of its parameters."""
from __future__ import annotations


def trunc(tok, objs):
    """dependence token -> parameter, or parameter.attribute for objects"""
    parts = tok.split(".")
    if parts[0] in objs and len(parts) > 1:
        i = 1
        while i < len(parts) - 1 and parts[i] == "[]":
            i += 1
        f = parts[i]
        if f == "time_data_imaginary":
            f = "time_data"
        return parts[0] + "." + f
    return parts[0]


def norm(s, objs):
    if not isinstance(s, tuple):
        return s
    if len(s) == 3 and s[0] == "D":
        return ("D", tuple(sorted({trunc(t, objs) for t in s[1]})), s[2])
    if len(s) == 2 and s[0] == "all":
        return norm(s[1], objs)
    r = tuple(norm(x, objs) for x in s)
    if r and r[0] == "cmp" and r[1] in ("==", "!=") and repr(r[3]) < repr(r[2]):
        r = (r[0], r[1], r[3], r[2]) + r[4:]
    return r


def demangle(f):
    if f.startswith("_") and "__" in f[1:]:
        return f[1:].split("__", 1)[1]
    return f.lstrip("_")


def roots(s, objs, out=None):
    """parameters (and fields of self) that a condition speaks about"""
    if out is None:
        out = set()
    if isinstance(s, tuple):
        if len(s) == 3 and s[0] == "D":
            for t in s[1]:
                p = t.split(".")
                out.add(p[0])
            return out
        if len(s) == 2 and s[0] == "p":
            out.add(s[1][0])
            return out
        for x in s:
            roots(x, objs, out)
    return out


def trivial(s):
    """says nothing about the arguments, or is true of the type alone"""
    r = roots(s, ())
    if not r:
        return True
    if s[0] == "cmp" and s[1] in ("isinst", "notinst") and len(s) > 3 and s[3] == ("set", "?"):
        return True
    if s[0] == "cmp" and s[1] in ("isinst", "notinst") and s[2][0] not in ("p", "D", "elem", "idx"):
        return True
    return False


def collect(prog, entry, res):
    """-> (must: {sym: local}, may: {sym: local}, undecided roots)"""
    ip = res.ip
    entry_fis = getattr(prog, "_entry_fis", None)
    if entry_fis is None:
        from .driver import entries
        entry_fis = prog._entry_fis = {e.fi for e in entries(prog)}
    objs = {entry.fi.params[0].name} if entry.cls is not None and entry.fi.params else set()
    for n, v in res.args.items():
        if any(ip.kind(o) == "inst" for o in v.objs):
            objs.add(n)
        for o in v.objs:
            if ip.kind(o) in ("list", "tuple"):
                objs.add(n)
    mro = {c.qualname for c in entry.cls.mro()} if entry.cls is not None else set()
    may, undecided = {}, set()
    for (loc, _, _, s), (decided, fi) in ip.guards.items():
        s = norm(s, objs)
        cls = getattr(fi, "cls", None)
        local = fi is entry.fi or (cls is not None and cls.qualname in mro) or fi not in entry_fis
        may[s] = may.get(s, False) or local
        if not decided:
            undecided |= roots(s, objs)
    must = set()
    if res.state is not None:
        must = {norm(f[1], objs) for f in res.state.facts if f[0] == "g"}
    return ({s for s in must if not trivial(s)} if res.state is not None else None,
            {s: l for s, l in may.items() if not trivial(s)}, undecided)


def const(s):
    return s[2] if isinstance(s, tuple) and len(s) == 3 and s[0] == "c" and isinstance(s[2], (int, float)) else None


def is_set(s):
    return isinstance(s, tuple) and s and s[0] == "set"


def as_set(s):
    """x == c as x in {c}, x != c as x not in {c}"""
    if s[0] == "cmp" and len(s) == 4 and s[1] in ("==", "!="):
        for c, x in ((s[2], s[3]), (s[3], s[2])):
            if isinstance(c, tuple) and c and c[0] in ("c", "e", "n"):
                return ("cmp", "in" if s[1] == "==" else "notin", x, ("set", c))
    return s


def implies(have, want):
    """the established condition `have` covers `want`"""
    if have == want:
        return True
    if "in" in (have[1], want[1]) or "notin" in (have[1], want[1]):
        h2, w2 = as_set(have), as_set(want)
        if (h2, w2) != (have, want) and implies(h2, w2):
            return True
    if want[0] == "or" and have in want[1:]:
        return True
    if have[0] == "and" and want in have[1:]:
        return True
    if want[0] == "exists" and have == want[1]:
        return True
    if have[0] != "cmp" or want[0] != "cmp" or len(have) != 4 or len(want) != 4:
        return False
    ho, ha, hb = have[1:]
    wo, wa, wb = want[1:]
    if wo in ("isinst", "in") and ho == wo and ha == wa and is_set(hb) and is_set(wb):
        return set(hb[1:]) <= set(wb[1:])
    if wo in ("notinst", "notin") and ho == wo and ha == wa and is_set(hb) and is_set(wb):
        return set(hb[1:]) >= set(wb[1:])
    if wo in ("<", "<=") and ho in ("<", "<="):
        if ha == wa and hb == wb:
            return ho == "<" or wo == "<="
        if hb == wb and const(ha) is not None and const(wa) is not None:      # lower bounds c < x
            x, y = const(ha), const(wa)
            return x > y or (isinstance(x, int) and isinstance(y, int) and wo == "<=" and ho == "<" and x == y - 1)
        if ha == wa and const(hb) is not None and const(wb) is not None:      # upper bounds x < c
            x, y = const(hb), const(wb)
            return x < y or (isinstance(x, int) and isinstance(y, int) and wo == "<=" and ho == "<" and x == y + 1)
    if ho == "==" and {repr(ha), repr(hb)} == {repr(wa), repr(wb)}:
        return wo in ("<=", "==")
    if ho == "<" and {repr(ha), repr(hb)} == {repr(wa), repr(wb)} and wo == "!=":
        return True
    return False


def operands(s):
    if s[0] == "cmp" and len(s) >= 4:
        a, b = s[2], s[3]
        if is_set(b):
            return (repr(a), "set")
        ca, cb = const(a) is not None, const(b) is not None
        if ca != cb:
            # a bound on one side of a term
            lower = s[1] in ("<", "<=") and ca
            upper = s[1] in ("<", "<=") and cb
            return (repr(b if ca else a), "low" if lower else "up" if upper else "eq")
        return tuple(sorted((repr(a), repr(b))))
    if s[0] in ("exists",):
        return operands(s[1])
    return None


def inner(s):
    return s[1] if s[0] == "exists" else s


def weaker(have, want):
    """`have` speaks about the same operands as `want` and does not cover it"""
    if have[0] in ("or",) and any(implies(x, want) for x in have[1:]):
        return True
    o, p = operands(want), operands(have)
    if o is not None and p is not None and (p == o or len(o) == 2 and len(p) == 2 and o[0] == p[0] and o[1] == "eq"
                                            and p[1] in ("low", "up")):
        return True
    if have[0] == "exists" and (have[1] == want or implies(have[1], want)):
        return True
    if have[-1:] in (("filtered",), ("part",)) and (have[:-1] == want or have[-2:] == ("filtered", "part") and have[:-2] == want):
        return True
    if magnitude(have, want):
        return True
    return False


def magnitude(have, want):
    """`have` bounds the magnitude of what `want` bounds from below: negative values pass"""
    if have[0] != "cmp" or want[0] != "cmp" or have[1] not in ("<", "<=") or want[1] not in ("<", "<=") \
            or const(want[2]) is None or const(want[2]) < 0:
        return False
    a, x = have[2], want[3]
    if not isinstance(a, tuple):
        return False
    if a[0] == "D" and a[2] == "abs":
        return isinstance(x, tuple) and roots(x, ()) == roots(a, ())
    return a[0] == "call" and a[1] in ("abs", "numpy.abs", "numpy.absolute") and a[2:] == (x,)


def strip(s):
    """without the hints that tell opaque values of equal dependence apart"""
    if not isinstance(s, tuple):
        return s
    if len(s) == 3 and s[0] == "D":
        return ("D", s[1], "")
    r = tuple(strip(x) for x in s)
    if r and r[0] == "cmp" and r[1] in ("==", "!=") and repr(r[3]) < repr(r[2]):
        r = (r[0], r[1], r[3], r[2]) + r[4:]
    return r


def lost(required, now, before=None):
    """conditions of `required` that `now` does not establish
    -> [(condition, weaker form or None)]"""
    before = set(required) if before is None else set(before)
    out = []
    for w in sorted(required, key=repr):
        if any(implies(h, w) for h in now):
            continue
        r = roots(w, ())
        sw = strip(w)
        if any(h not in before and implies(strip(h), sw) for h in now):
            continue
        weak = [h for h in now if h not in before and (weaker(strip(h), sw) or magnitude(h, w))]
        new = [h for h in now if h not in before and h not in weak and roots(h, ()) & r]
        if new:
            continue        # stated in another way
        out.append((w, sorted(weak, key=repr)[0] if weak else None))
    return out


def show(s):
    if not isinstance(s, tuple):
        return str(s)
    if not s:
        return "()"
    h = s[0]
    if h == "cmp":
        op = {"isinst": "is a", "notinst": "is not a", "notin": "not in"}.get(s[1], s[1])
        return f"{show(s[2])} {op} {show(s[3])}" + (" (filtered)" if s[4:] else "")
    if h == "p":
        return ".".join(demangle(x) for x in s[1]).replace(".[", "[")
    if h == "c":
        return repr(s[2])
    if h == "n":
        return "None"
    if h == "e":
        return f"{s[1].split('.')[-1]}.{s[2]}"
    if h == "D":
        return (s[2] or "f") + "(" + ", ".join(s[1]) + ")"
    if h == "set":
        return "{" + ", ".join(show(x) for x in s[1:]) + "}"
    if h == "call":
        return f"{s[1]}({', '.join(show(x) for x in s[2:])})"
    if h == "attr":
        return f"{show(s[1])}.{s[2]}"
    if h == "idx":
        return f"{show(s[1])}[{show(s[2])}]"
    if h in ("and", "or"):
        return "(" + f" {h} ".join(show(x) for x in s[1:]) + ")"
    if h in ("t", "f", "exists", "not"):
        return {"t": "", "f": "not ", "exists": "some ", "not": "not "}[h] + show(s[1])
    return "(" + " ".join(show(x) for x in s) + ")"
