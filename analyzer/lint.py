"""Module-wide syntactic checks that need no interpretation."""
from __future__ import annotations
import ast
import builtins
import symtable

from .program import PKG

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__class__"}


def undefined_names(prog):
    """-> [(module, scope, name, line)], number of global references checked"""
    out, n = [], 0
    for m in prog.modules.values():
        try:
            src = ast.unparse(m.tree)
        except Exception:
            continue
        tab = symtable.symtable(src, m.relpath, "exec")
        top = {s.get_name() for s in tab.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        ann_only = annotation_names(m.tree)

        def visit(t, path):
            nonlocal n
            for s in t.get_symbols():
                nm = s.get_name()
                if not s.is_referenced():
                    continue
                if not (s.is_global() or t is tab):
                    continue
                n += 1
                if nm in top or nm in BUILTIN or nm in m.symbols or prog.resolve(m, nm) is not None:
                    continue
                if nm in ann_only:
                    continue
                line = next((x.lineno for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == nm), 0)
                out.append((m, path, nm, line))
            for c in t.get_children():
                visit(c, path + [c.get_name()])
        visit(tab, [])
    return out, n


def annotation_names(tree):
    """names that occur in annotations only (never evaluated with the future
    import, and strings otherwise)"""
    ann, other = set(), set()
    skip = set()
    for x in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(x, f, None)
            if isinstance(a, ast.AST):
                for y in ast.walk(a):
                    if isinstance(y, ast.Name):
                        ann.add(y.id)
                        skip.add(id(y))
    for x in ast.walk(tree):
        if isinstance(x, ast.Name) and id(x) not in skip:
            other.add(x.id)
    future = any(isinstance(x, ast.ImportFrom) and x.module == "__future__" for x in tree.body)
    return (ann - other) if future else set()


def missing_imports(prog):
    """names imported from the package, or announced in __all__, that do not exist"""
    out, n = [], 0
    for m in prog.modules.values():
        for name, s in m.symbols.items():
            if name == "*":
                for base in s:
                    n += 1
                    if base.startswith(PKG) and base not in prog.modules:
                        out.append((m, f"import {base}", 0))
                continue
            if s and s[0] == "from":
                n += 1
                r = prog.resolve(m, name)
                if r is not None and r[0] == "missing":
                    out.append((m, f"import {r[1]}.{r[2]}", 0))
        if m.all is not None:
            for nm, line in m.all:
                n += 1
                if prog.resolve(m, nm) is None:
                    out.append((m, f"__all__ {nm}", line))
    return out, n


def _stub_names(path):
    import os
    names = set()
    for fn in ("__init__.pyi", "__init__.py"):
        p = os.path.join(path, fn)
        if not os.path.exists(p):
            continue
        tree = ast.parse(open(p, encoding="utf-8").read())
        for x in ast.walk(tree):
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    names.add((a.asname or a.name).split(".")[0])
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                names.add(x.name)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                names.add(x.target.id)
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        names.add(t.id)
        for f in os.listdir(path):
            names.add(f.split(".")[0])
        return names if "*" not in names else None
    return None


def numpy_names(prog):
    """attributes of numpy (and its fft, linalg, random modules) that the
    installed stubs do not know -> findings, number checked"""
    import glob
    out, n = [], 0
    roots = glob.glob("/opt/venv/lib/python3*/site-packages/numpy")
    if not roots:
        return out, 0
    known = {"numpy": _stub_names(roots[0])}
    for sub in ("fft", "linalg", "random"):
        known["numpy." + sub] = _stub_names(roots[0] + "/" + sub)
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Attribute):
                continue
            r = prog.resolve_expr(m, x.value)
            if r and r[0] == "ext" and known.get(r[1]):
                n += 1
                if x.attr not in known[r[1]]:
                    out.append((m, f"{r[1]}.{x.attr}", x.lineno))
        for name, s in m.symbols.items():
            if name != "*" and s and s[0] == "from" and known.get(s[1]):
                n += 1
                if s[2] not in known[s[1]]:
                    out.append((m, f"{s[1]}.{s[2]}", 0))
    return out, n


def stale_reads(prog):
    """Elements read in a loop before the loop writes them, of arrays which nothing but this loop fills: always the initial
    value. -> ([(function info, name, line)], arrays filled element by element)"""
    out, count = [], 0
    for fi in prog.functions:
        if not isinstance(fi.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        made = {}
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and isinstance(n.value, ast.Call) and (n.value.func.attr if isinstance(n.value.func, ast.Attribute) else
                                                           getattr(n.value.func, "id", "")) in (
                        "zeros", "zeros_like", "ones", "ones_like", "empty", "empty_like"):
                made.setdefault(n.targets[0].id, []).append(n)
        for name, mk in made.items():
            if len(mk) != 1:
                continue
            binds = [n for n in ast.walk(fi.node) if isinstance(n, ast.Name) and n.id == name]
            subs = {id(n.value): n for n in ast.walk(fi.node) if isinstance(n, ast.Subscript)}
            every = [subs[id(n)] for n in binds if id(n) in subs and isinstance(subs[id(n)].ctx, ast.Store)]
            for loop in [n for n in ast.walk(fi.node) if isinstance(n, ast.For) and isinstance(n.target, ast.Name)]:
                inside = {id(x) for s in loop.body for x in ast.walk(s)}
                if sum(isinstance(n.ctx, ast.Store) and n.lineno <= loop.end_lineno for n in binds) != 1:
                    continue
                if any(isinstance(w, (ast.For, ast.While)) and w is not loop and any(x is loop for x in ast.walk(w))
                       and not any(x is mk[0] for x in ast.walk(w)) for w in ast.walk(fi.node)):
                    continue            # filled again and again
                # what happens to it before and in the loop
                stores = [s for s in every if s.lineno <= loop.end_lineno]
                if not stores or not all(id(s) in inside and _first(s) == loop.target.id for s in stores):
                    continue
                if any(isinstance(x, ast.Name) and x.id == loop.target.id and isinstance(x.ctx, ast.Store)
                       for s in loop.body for x in ast.walk(s)):
                    continue
                count += 1
                # handed to something else inside of the loop: may be written there
                if any(id(n) in inside and id(n) not in subs for n in binds):
                    continue
                order = {}
                _positions(loop.body, order, [0])
                inner = [{id(x) for x in ast.walk(w)} for s in loop.body for w in ast.walk(s) if isinstance(w, (ast.For, ast.While))]
                first = min(order.get(id(s), 0) for s in stores)
                for n in binds:
                    s = subs.get(id(n))
                    if s is None or not isinstance(s.ctx, ast.Load) or id(s) not in inside or _first(s) != loop.target.id:
                        continue
                    if order.get(id(s), 1 << 30) < first and not any(id(s) in w and any(id(t) in w for t in stores) for w in inner):
                        out.append((fi, name, s.lineno))
    return out, count


def _first(sub):
    i = sub.slice
    if isinstance(i, ast.Tuple) and i.elts:
        i = i.elts[0]
    return i.id if isinstance(i, ast.Name) else None


def _positions(body, order, k):
    """evaluation order of the expressions in a block; targets come after the values"""
    for s in body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            k[0] += 1
            for x in ast.walk(s.value):
                order[id(x)] = k[0]
            k[0] += 1
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                for x in ast.walk(t):
                    order[id(x)] = k[0]
            continue
        if isinstance(s, ast.AugAssign):
            k[0] += 1
            for x in ast.walk(s):
                order[id(x)] = k[0]
            continue
        subs = []
        for f, v in ast.iter_fields(s):
            if isinstance(v, list) and v and isinstance(v[0], (ast.stmt, ast.ExceptHandler, ast.match_case)):
                subs.append(v)
            elif isinstance(v, ast.AST):
                k[0] += 1
                for x in ast.walk(v):
                    order[id(x)] = k[0]
            elif isinstance(v, list):
                for y in v:
                    k[0] += 1
                    for x in ast.walk(y) if isinstance(y, ast.AST) else ():
                        order[id(x)] = k[0]
        for v in subs:
            for y in v:
                if isinstance(y, ast.stmt):
                    _positions([y], order, k)
                else:
                    _positions(y.body, order, k)
