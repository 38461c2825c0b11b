"""What a call changed: comparison of the final heap with the initial one."""
from __future__ import annotations
from .values import V, E, NONE
from .program import mangle


def _root_clone(ip, oid):
    seen = [oid]
    o = ip.objs[oid]
    while o.clone_of is not None:
        seen.append(o.clone_of)
        o = ip.objs[o.clone_of]
    return seen


def same_as_init(ip, st, oid, field, v, depth=0):
    """Does v equal the initial content of (oid, field)?"""
    init = ip.init_value(oid, field)
    return equal_value(ip, st, v, init, depth)


def equal_value(ip, st, v, init, depth=0):
    if v is init:
        return True
    if v.sym is not None and v.sym == init.sym and v.objs <= init.objs:
        return True
    if depth > 6:
        return False
    if v.objs:
        if v.consts - init.consts or (v.unk - init.unk and "any" not in init.unk):
            return False
        if v.unk and v.sym != init.sym and v.deps - init.deps:
            return False        # or a scalar computed from something else
        for o in v.objs:
            if o in init.objs:
                # part of an array is not the array
                if ip.objs[o].kind == "array" and v.sym != init.sym:
                    return False
                continue
            if not _content_same(ip, st, o, init, depth):
                return False
        return True
    return False


def _content_same(ip, st, o, init, depth):
    ob = ip.objs[o]
    chain = _root_clone(ip, o)
    hit = [c for c in chain if c in init.objs]
    if hit:
        if (o, "#mut") in st.heap:
            return False
        for f in ob.fnames:
            x = st.heap.get((o, f))
            if x is None or f == "#mut":
                continue
            if not equal_value(ip, st, x, ip.init_value(hit[0], f), depth + 1):
                return False
        return True
    if ob.kind == "dict" and ob.origin is None and len(init.objs) == 1:
        # rebuilt dictionary with identical entries
        i = next(iter(init.objs))
        if (o, "#mut") in st.heap or not ob.fnames:
            return False
        for f in ob.fnames:
            x = st.heap.get((o, f))
            if x is None:
                continue
            if not equal_value(ip, st, x, ip.init_value(i, f), depth + 1):
                return False
        return True
    return False


def owner_class(ip, origin_oid):
    return ip.objs[origin_oid].cls


def changed_fields(res):
    """-> list of (oid, origin path, field, V) for originated objects whose
    field differs from its initial content on normal return"""
    ip, st = res.ip, res.state
    out = []
    if st is None:
        return out
    for (oid, f), v in st.heap.items():
        if f == "#mut":
            continue
        o = ip.objs[oid]
        if o.origin is None:
            continue
        if not same_as_init(ip, st, oid, f, v):
            out.append((oid, o.origin, f, v))
    return out
