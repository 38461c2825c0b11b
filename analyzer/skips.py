"""Settings that are not stored because they compare equal to the present ones:
the comparison has to cover every setting."""
import ast

from .program import mangle

ALL = "all"


def _attr(fi, n):
    me = fi.params[0].name
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
        return mangle(fi.cls, n.attr)
    return None


def _bound(fi, name):
    v = [n.value for n in ast.walk(fi.node) if isinstance(n, ast.Assign)
         and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)]
    return v[0] if len(v) == 1 else None


def _keys(fi, e, field):
    """keys a loop over `e` visits: ALL for the settings themselves, a set for
    a literal, None when unknown"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "items", "copy"):
        return _keys(fi, e.func.value, field)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "set", "sorted") and e.args:
        return _keys(fi, e.args[0], field)
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        if all(isinstance(x, ast.Constant) for x in e.elts):
            return frozenset(x.value for x in e.elts)
        return None
    if _attr(fi, e) == field:
        return ALL
    if isinstance(e, ast.Name):
        b = _bound(fi, e.id)
        if b is None or isinstance(b, (ast.Dict, ast.DictComp)) or isinstance(b, ast.Call) and isinstance(b.func, ast.Name) \
                and b.func.id == "dict":
            return ALL
        return _keys(fi, b, field)
    return None


def literal_keys(fi, e):
    if isinstance(e, ast.Name):
        e = _bound(fi, e.id)
    if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) for k in e.keys):
        return frozenset(k.value for k in e.keys)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and not e.args \
            and all(k.arg for k in e.keywords):
        return frozenset(k.arg for k in e.keywords)
    return None


def same(fi, e, pos, field, depth=0):
    """settings known to be unchanged when `e` is `pos`: ALL, a set of keys, or
    None when the expression is not understood"""
    if depth > 8:
        return None
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return same(fi, e.operand, not pos, field, depth + 1)
    if isinstance(e, ast.Name):
        b = _bound(fi, e.id)
        return same(fi, b, pos, field, depth + 1) if b is not None else None
    if isinstance(e, ast.BoolOp):
        parts = [same(fi, x, pos, field, depth + 1) for x in e.values]
        if isinstance(e.op, ast.And) == pos:
            if ALL in parts:
                return ALL
            if None in parts:
                return None
            return frozenset().union(*parts)
        if None in parts:
            return None
        parts = [p for p in parts if p != ALL]
        return frozenset.intersection(*parts) if parts else ALL
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
        equal = isinstance(e.ops[0], ast.Eq) == pos
        a, b = e.left, e.comparators[0]
        for x, y in ((a, b), (b, a)):
            if _attr(fi, x) == field:
                return ALL if equal else frozenset()
            if isinstance(x, ast.Subscript) and _attr(fi, x.value) == field:
                if not equal:
                    return frozenset()
                return frozenset([x.slice.value]) if isinstance(x.slice, ast.Constant) else None
        return None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("all", "any") and e.args \
            or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("all", "any") and e.args:
        how = e.func.id if isinstance(e.func, ast.Name) else e.func.attr
        c = e.args[0]
        if isinstance(c, ast.Name):
            c = _bound(fi, c.id)
        if isinstance(c, (ast.List, ast.Tuple)):
            return same(fi, ast.BoolOp(op=ast.And() if how == "all" else ast.Or(), values=list(c.elts)), pos, field, depth + 1) \
                if c.elts else None
        if not isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) or len(c.generators) != 1:
            return None
        g = c.generators[0]
        n = c.elt
        flip = True
        while isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            n, flip = n.operand, not flip
        if not isinstance(n, ast.Compare) or len(n.ops) != 1 or not isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            return None
        if field not in {_attr(fi, x) for x in ast.walk(c)}:
            return None
        eq = isinstance(n.ops[0], ast.Eq) == flip
        # all(a == b) true, any(a != b) false: every visited one is equal
        every = (how == "all") == pos
        if not every or eq != pos:
            return frozenset()
        ks = _keys(fi, g.iter, field)
        if isinstance(ks, frozenset) and not g.ifs:
            return ks
        if g.ifs:
            return frozenset()
        return ks
    return None


def skipped_updates(prog, classes_fields):
    """classes_fields: {class: fields holding settings}. -> [(fi, node, field, missing)], number of comparisons judged"""
    out, n = [], 0
    for ci, fields, flags in classes_fields:
        for table in ("methods", "setters"):
            for fi in getattr(ci, table).values():
                if not fi.params:
                    continue
                for node in ast.walk(fi.node):
                    if not isinstance(node, ast.If):
                        continue
                    for field in sorted({_attr(fi, x) for x in ast.walk(node.test)} & fields | {
                            _attr(fi, x) for t in ast.walk(node.test) if isinstance(t, ast.Name)
                            for b in [_bound(fi, t.id)] if b is not None for x in ast.walk(b)} & fields):
                        def stores(body):
                            return [a for s in body for a in ast.walk(s) if isinstance(a, ast.Assign)
                                    and any(_attr(fi, t) == field for t in a.targets)]
                        after = [a for a in ast.walk(fi.node) if isinstance(a, ast.Assign) and a.lineno > node.lineno
                                 and any(_attr(fi, t) == field for t in a.targets)]
                        if stores(node.body) and not stores(node.orelse):
                            pos, st = False, stores(node.body)
                        elif stores(node.orelse) and not stores(node.body):
                            pos, st = True, stores(node.orelse)
                        elif node.body and isinstance(node.body[-1], ast.Return) and not stores(node.body) and after:
                            pos, st = True, after
                        else:
                            continue
                        known = same(fi, node.test, pos, field)
                        if known is None:
                            continue
                        n += 1
                        if known == ALL:
                            continue
                        full = literal_keys(fi, st[0].value)
                        if full is not None and full <= known:
                            continue
                        out.append((fi, node, field, sorted(full - known) if full else []))
    return out, n
