"""Picklable facts about one analysed operation, and the sweep over all."""
from __future__ import annotations
import multiprocessing as mp
import os
import time

from .program import Program, AnalysisBroken, mangle
from .driver import Entry, entries, run, param_types, alternatives, alt_name
from .effects import changed_fields
from .values import E, V

MUTABLE = {"array", "list", "dict", "set", "inst"}


def reach(ip, st, v, maxdepth=6):
    """objects reachable from v in the final heap -> {oid: access path}"""
    out = {}
    todo = [(o, ()) for o in sorted(v.objs)]
    while todo:
        o, path = todo.pop(0)
        if o in out:
            continue
        out[o] = path
        if len(path) >= maxdepth:
            continue
        ob = ip.objs[o]
        if ob.origin is not None:
            continue
        for f in sorted(ob.fnames):
            x = st.heap.get((o, f))
            if x is None or f == "#mut":
                continue
            for c in sorted(x.objs):
                todo.append((c, path + (f,)))
        if ob.kind == "list" or ob.kind == "tuple" or ob.kind == "iter":
            x = st.heap.get((o, "[]"))
            if x is not None:
                for c in sorted(x.objs):
                    todo.append((c, path + ("[]",)))
    return out


class Summary:
    def __init__(self):
        pass


def typename(ip, o):
    ob = ip.objs[o]
    return ob.cls.name if ob.kind == "inst" else ob.kind


def summarize(prog, entry, restrict=None, hooks=(), extra=None, **opt):
    t0 = time.time()
    res = run(prog, entry, restrict, hooks, **opt)
    ip, st = res.ip, res.state
    s = Summary()
    s.id, s.name, s.qual = entry.id, entry.fi.name, entry.fi.qualname
    s.kind = entry.fi.kind
    s.cls = entry.cls.name if entry.cls else None
    s.owner = entry.fi.cls.name if entry.fi.cls else None
    s.loc = f"{entry.fi.module.relpath}:{entry.fi.node.lineno}"
    s.budget = res.budget
    s.functions = set(ip.functions)
    s.n_callsites = len(ip.callsites)
    s.n_stmts = len(ip.reached)
    s.steps = ip.steps
    s.mutations = [(k[0], k[1], v[0], v[1]) for k, v in ip.mutations.items()]
    s.changed = []
    s.shares = []
    s.stored = []
    s.normal = st is not None
    s.n_args = sum(1 for o in (ip.objs.values() if isinstance(ip.objs, dict) else ip.objs) if o.origin is not None)
    s.n_compared = sum(1 for k in st.heap if ip.objs[k[0]].origin is not None) if st is not None else 0
    if st is not None:
        for oid, path, f, v in changed_fields(res):
            w = ip.setattrs.get((path, f))
            ob = ip.objs[oid]
            s.changed.append((path, f, ob.cls.name if ob.cls is not None else ob.kind,
                              sorted({ip.kind(o) for o in v.objs}),
                              w[0] if w else "?", w[1] if w else []))
        if res.value is not None:
            # per package object handed out (directly or inside containers):
            # what it shares with the inputs
            R = reach(ip, st, res.value)
            for r0, p0 in sorted(R.items()):
                rb = ip.objs[r0]
                if rb.kind != "inst" and p0 != ():
                    continue
                for o, path in reach(ip, st, V(objs=frozenset([r0]))).items():
                    ob = ip.objs[o]
                    if ob.origin is not None and ob.kind in MUTABLE:
                        s.shares.append((typename(ip, r0), path, ob.origin, typename(ip, o)))
        s.rettypes = sorted({typename(ip, o) for o in res.value.objs} | {"const:" + str(c) for c in res.value.consts}
                            | set(res.value.unk)) if res.value is not None else []
        # caller objects stored inside self / other arguments
        roots = {}
        if getattr(ip, "self_oid", None) is not None:
            roots["self"] = ip.self_oid
        for (oid, f), v in st.heap.items():
            ob = ip.objs[oid]
            root = None
            if "self" in roots and oid == roots["self"]:
                root = ("self",)
            elif ob.origin is not None:
                root = ob.origin
            if root is None or f == "#mut":
                continue
            for o, path in reach(ip, st, v).items():
                ob2 = ip.objs[o]
                if ob2.origin is not None and ob2.origin[0] != root[0] and ob2.kind in MUTABLE:
                    s.stored.append((root + (f,) + path, ob2.origin, typename(ip, o)))
    else:
        s.rettypes = None
    for nm in ("unbound", "badcalls", "attrerrs", "typeerrs", "none_returns", "enum_writes", "global_writes"):
        setattr(s, nm, [(k, v[0], v[1]) for k, v in getattr(ip, nm).items()])
    s.extcalls = {q: sorted(locs) for q, locs in ip.extcalls.items()}
    s.extra = extra(prog, entry, res) if extra is not None else None
    s.alt = alt_name(restrict)
    s.deliberate = bool(ip.raises)
    s.option = bool(opt.get("option"))
    s.wall = time.time() - t0
    return s


_G = {}


def _work(j):
    # jobs are inherited through fork: classes keep their identity
    i, restrict, kw = _G["jobs"][j]
    prog, ents = _G["prog"], _G["ents"]
    hooks = _G["mkhooks"]() if _G.get("mkhooks") else ()
    try:
        return i, summarize(prog, ents[i], restrict, hooks, _G.get("extra"), **kw)
    except Exception as e:      # recorded; too many of them break the check
        import traceback
        return i, (ents[i].id, f"{type(e).__name__}: {e}", traceback.format_exc())


def sweep(prog, ents=None, jobs=None, mkhooks=None, extra=None, procs=None):
    """-> list of (index, Summary); jobs: [(index, restrict, options)]"""
    ents = ents if ents is not None else entries(prog)
    if jobs is None:
        jobs = [(i, None, {}) for i in range(len(ents))]
    _G.update(prog=prog, ents=ents, mkhooks=mkhooks, extra=extra, jobs=jobs)
    procs = procs or int(os.environ.get("DSPTB_PROCS", "0")) or min(8, os.cpu_count() or 1)
    if procs == 1:
        return [_work(j) for j in range(len(jobs))]
    ctx = mp.get_context("fork")
    with ctx.Pool(procs) as pool:
        return pool.map(_work, range(len(jobs)), chunksize=max(1, min(8, len(jobs) // (procs * 4) or 1)))
