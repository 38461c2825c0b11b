"""Abstract interpreter: runs one public operation on abstract arguments and
records aliasing, effects, dependences, guards and failures."""
from __future__ import annotations
import ast
import operator

from .program import (FuncInfo, ClassInfo, mangle, ANY, AnalysisBroken, _ModFn)
from .values import V, E, NONE, ckey, join_v, State, same_state
from . import libmodel as L

MAXDEPTH = 28
MAXREC = 2
MAXLOOP = 3


class Dead(Exception):
    """Evaluation does not continue normally."""


class Budget(Exception):
    pass


class Obj:
    __slots__ = ("oid", "kind", "cls", "origin", "types", "clone_of", "fnames", "site", "extra", "nonempty")

    def __init__(self, oid, kind, cls=None, origin=None, types=None, clone_of=None, site=None):
        self.oid, self.kind, self.cls, self.origin = oid, kind, cls, origin
        self.types, self.clone_of, self.site = types, clone_of, site
        self.fnames = set()
        self.extra = None
        self.nonempty = False


class Frame:
    __slots__ = ("fi", "module", "cls", "returns", "loops", "key", "captured", "callnode", "parent", "raised",
                 "selfcls", "partial")

    def __init__(self, fi, key, callnode, parent, captured=None):
        self.fi, self.module, self.cls = fi, fi.module, fi.cls
        self.returns = []
        self.loops = []
        self.partial = 0
        self.key, self.callnode, self.parent, self.captured = key, callnode, parent, captured
        self.raised = False
        self.selfcls = None


def tok(path):
    out = []
    for i, p in enumerate(path[:4]):
        if i and p.startswith("_") and "__" in p[1:]:
            p = p[p.index("__", 1) + 2:]
        out.append(p)
    return ".".join(out)


def ssize(s):
    if not isinstance(s, tuple):
        return 1
    return 1 + sum(ssize(x) for x in s if isinstance(x, tuple))


def mk(*parts):
    s = tuple(parts)
    if ssize(s) > 40:
        return None
    return s


NEG = {"==": "!=", "!=": "==", "in": "notin", "notin": "in", "isinst": "notinst", "notinst": "isinst",
       "true": "false", "false": "true"}


def canon_cmp(op, a, b):
    """canonical symbolic comparison"""
    if a is None or b is None:
        return None
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    if op == "is":
        op = "=="
    if op == "isnot":
        op = "!="
    if op in ("==", "!=") and repr(b) < repr(a):
        a, b = b, a
    return ("cmp", op, a, b)


def negate(s):
    if s is None:
        return None
    if s[0] == "cmp":
        op, a, b = s[1:]
        if op == "<":
            return ("cmp", "<=", b, a)
        if op == "<=":
            return ("cmp", "<", b, a)
        return ("cmp", NEG[op], a, b)
    if s[0] == "not":
        return s[1]
    return ("not", s)


def sym_heads(s, out=None):
    if out is None:
        out = set()
    if isinstance(s, tuple):
        if s and isinstance(s[0], str):
            out.add(s[0])
            if s[0] in ("p", "c"):
                return out
        for x in s:
            sym_heads(x, out)
    return out


CONDS = ("cmp", "and", "or", "t", "f", "exists", "all")
COND_CALL = {"all": True, "any": True, "isinstance": True}


def neg_cond(s):
    h = s[0]
    if h == "cmp":
        return negate(s) if len(s) == 4 else ("not", s)
    if h == "not":
        return s[1]
    if h in ("and", "or"):
        return ("or" if h == "and" else "and",) + tuple(sorted((neg_cond(x) for x in s[1:]), key=repr))
    if h in ("t", "f"):
        return ("f" if h == "t" else "t",) + s[1:]
    if h == "all":
        return ("exists", neg_cond(s[1]))
    if h == "exists":
        return ("all", neg_cond(s[1]))
    return ("not", s)


def leaf_deps(d):
    d = sorted(d)
    return tuple(x for x in d if not any(y != x and y.startswith(x + ".") for y in d))


class Interp:
    def __init__(self, prog, options=None):
        self.prog = prog
        self.objs = []
        self.initcache = {}
        self.allocs = {}
        self.keys = {}
        self.opt = options or {}
        self.frames = []
        self.cur_ctl = E
        self.steps = 0
        self.max_steps = self.opt.get("max_steps", 600000)
        self.lastcmp = {}
        self.lastval = {}
        self.keepvals = bool(self.opt.get("guards"))
        self.marker = self.opt.get("marker")
        if isinstance(self.marker, type):
            self.marker = self.marker(self.opt)
        self.marker_fields = {}
        self.presets = dict(self.opt.get("presets") or {})
        for k, t in self.presets.items():
            if isinstance(t, str):
                # "A|B": a list of objects of these classes
                names = t.split("|")
                self.presets[k] = frozenset([("list", frozenset(
                    ("inst", c) for c in prog.classes.values() if c.name in names))])
        self.nonempty = bool(self.opt.get("nonempty"))
        self.shape_drop = frozenset(self.opt.get("shape_drop") or ())  # parts of sources a shape does not carry
        self.data_only = bool(self.opt.get("data_only"))     # dependencies through values only, not through conditions
        self.guards = {}
        self.captures = []
        self.globals = {}
        # ---- recorded facts
        self.mutations = {}       # (origin path, how) -> (loc, chain)
        self.setattrs = {}        # (origin path, field) -> (loc, chain)
        self.unbound = {}         # (func, name) -> (loc, chain)
        self.badcalls = {}
        self.attrerrs = {}
        self.extcalls = {}        # qual -> set of locs
        self.enum_writes = {}
        self.global_writes = {}
        self.may_checks = {}      # guard sym/deps -> loc
        self.raises = []
        self.raise_deps = E       # what decides whether the call is rejected
        self.lazy = {}            # fields of copies which were reached
        self.printed = E          # what is shown with print
        self.sinks = E            # dependence tokens flowing to external side effects
        self.functions = set()    # functions interpreted
        self.callsites = set()
        self.reached = set()      # ids of executed stmts
        self.noreturn = {}
        self.unit_events = {}
        self.idx_replaced = set()
        self.hooks = self.opt.get("hooks", ())
        self.none_returns = {}
        self.typeerrs = {}
        self.reads = {}
        self.call_log = {}
        self.cl_owner = {}
        self.aug_receivers = E
        self.precise_members = self.opt.get("restrict", {})

    # -------------------------------------------------------------- objects
    def new_obj(self, kind, cls=None, origin=None, types=None, clone_of=None, site=None):
        o = Obj(len(self.objs), kind, cls, origin, types, clone_of, site)
        self.objs.append(o)
        return o.oid

    def alloc(self, kind, node, st, tag="", cls=None, types=None, clone_of=None):
        key = (self.frames[-1].key if self.frames else 0, id(node), tag, kind, cls)
        oid = self.allocs.get(key)
        if oid is None:
            oid = self.new_obj(kind, cls, None, types, clone_of, node)
            self.allocs[key] = oid
        else:
            o = self.objs[oid]
            for f in o.fnames:
                st.heap.pop((oid, f), None)
            st.odeps.pop(oid, None)
            o.clone_of = clone_of
        return oid

    def kind(self, oid):
        return self.objs[oid].kind

    def loc(self, node):
        fr = self.frames[-1]
        return f"{fr.module.relpath}:{getattr(node, 'lineno', '?')}"

    def chain(self):
        return [f.fi.qualname for f in self.frames]

    def where(self):
        return self.frames[-1].fi.qualname if self.frames else "<entry>"

    # --------------------------------------------------------------- typing
    def from_types(self, types, path, deps=None, originated=True, site=None):
        """Abstract value of declared type `types` living at `path`."""
        deps = frozenset([tok(path)]) if deps is None else deps
        objs, consts, unk = set(), set(), set()
        if not types:
            types = ANY
        for t in types:
            k = t[0]
            if k == "none":
                consts.add(NONE)
            elif k == "const":
                consts.add(ckey(t[1]))
            elif k == "member":
                consts.add(("e", t[1], t[2]))
            elif k == "bool":
                unk.add("bool")
            elif k in ("float", "int", "str", "complex", "bytes", "slice"):
                unk.add(k)
            elif k == "enum":
                for m in t[1].members:
                    consts.add(("e", t[1].qualname, m))
            else:
                objs.add(self._init_obj(t, path, originated))
        return V(frozenset(objs), frozenset(consts), frozenset(unk), ("p", path), deps)

    def _init_obj(self, t, path, originated=True):
        key = (path, t, originated)
        oid = self.initcache.get(key)
        if oid is None:
            kind = {"inst": "inst", "arr": "array", "list": "list", "tuple": "tuple", "vartuple": "tuple",
                    "dict": "dict", "set": "set", "callable": "callable", "ext": "ext", "any": "any"}.get(t[0], "any")
            cls = t[1] if t[0] == "inst" else None
            oid = self.new_obj(kind, cls, path if originated else None, t)
            if not originated:
                self.objs[oid].extra = path
            self.initcache[key] = oid
        return oid

    def init_value(self, oid, field):
        """Initial content of a field of an object that exists at entry."""
        key = (oid, "f", field)
        v = self.initcache.get(key)
        if v is not None:
            return v
        o = self.objs[oid]
        if o.clone_of is not None:
            base = self.init_value(o.clone_of, field)
            v = self._clone_init(oid, field, base)
            self.initcache[key] = v
            if v.objs:
                self.lazy.setdefault(oid, {})[field] = v
            return v
        path = (o.origin if o.origin is not None else (o.extra if o.extra is not None else None))
        if path is None:
            v = V(unk=frozenset(["any"]))
            self.initcache[key] = v
            return v
        if len(path) > 7:
            v = V(unk=frozenset(["any"]), deps=frozenset([tok(path)]), sym=("p", path + (field,)))
            self.initcache[key] = v
            return v
        types = None
        if o.kind == "inst":
            types = self.prog.fields(o.cls).get(field)
            if types is None:
                for sc in o.cls.all_subclasses():
                    types = self.prog.fields(sc).get(field)
                    if types:
                        break
            types = types or ANY
        elif o.kind == "list":
            types = o.types[1] if len(o.types) > 1 else ANY
        elif o.kind == "dict":
            types = o.types[1] if len(o.types) > 1 else ANY
        elif o.kind == "tuple":
            if o.types[0] == "tuple":
                if field.startswith("[") and field[1:-1].isdigit() and int(field[1:-1]) < len(o.types[1]):
                    types = o.types[1][int(field[1:-1])]
                else:
                    types = frozenset().union(*o.types[1]) if o.types[1] else ANY
            else:
                types = o.types[1]
        elif o.kind == "array":
            types = frozenset([("float",)])
        else:
            types = ANY
        types = types or ANY
        if field in self.presets:
            types = self.presets[field]
        v = self.from_types(types, path + (field,), originated=o.origin is not None)
        self.initcache[key] = v
        return v

    def _clone_init(self, oid, field, base):
        if not base.objs:
            return base
        objs = set()
        for b in base.objs:
            bo = self.objs[b]
            if bo.kind in ("callable", "ext"):
                objs.add(b)
                continue
            k2 = (oid, "cl", field, b)
            c = self.initcache.get(k2)
            if c is None:
                c = self.new_obj(bo.kind, bo.cls, None, bo.types, b)
                self.initcache[k2] = c
                self.cl_owner[c] = (oid, field)
            objs.add(c)
        return base.w(objs=frozenset(objs))

    def load(self, st, oid, field):
        v = st.heap.get((oid, field))
        if v is None:
            v = self.init_value(oid, field)
        elif v.ub:
            v = v.w(ub=False)
        return self.apply_refined(st, v)

    def apply_refined(self, st, v):
        if v.sym is not None and st.refined and v.sym in st.refined:
            only, no = st.refined[v.sym]
            v = self._filter(v, only, no)
        return v

    def _filter(self, v, only, no):
        if only is not None:
            cs = v.consts & only
            if v.unk or any(self.kind(o) == "any" for o in v.objs):
                cs = only
            if cs or not (only & v.consts):
                return v.w(objs=E, consts=cs or only, unk=E)
        if no:
            cs = v.consts - no
            return v.w(consts=cs)
        return v

    def store(self, st, oid, field, v, node, weak=False):
        o = self.objs[oid]
        v = v.adddeps(self.cur_ctl | st.sticky)
        if v.ub:
            v = v.w(ub=False)
        if weak:
            v = join_v(self.load(st, oid, field), v)
        o.fnames.add(field)
        st.heap[(oid, field)] = v
        if o.origin is not None:
            self.setattrs.setdefault((o.origin, field), (self.loc(node), self.chain()))
        for h in self.hooks:
            h.on_store(self, st, o, field, v, node)

    # ------------------------------------------------------------ dependence
    def deps_of(self, v, st, depth=5, seen=None):
        out = set(v.deps)
        if v.objs:
            if seen is None:
                seen = set()
            for o in v.objs:
                self._odeps(o, st, out, depth, seen)
        return frozenset(out)

    def _odeps(self, oid, st, out, depth, seen):
        if oid in seen or depth == 0:
            return
        seen.add(oid)
        d = st.odeps.get(oid)
        if d:
            out |= d
        o = self.objs[oid]
        if o.origin is not None:
            out.add(tok(o.origin))
        elif o.extra is not None and isinstance(o.extra, tuple):
            out.add(tok(o.extra))
        if o.clone_of is not None and not (o.kind == "array" and d):
            # (a copied array has taken over what its source depended on)
            self._odeps(o.clone_of, st, out, depth - 1, seen)
        if o.kind == "func" and o.types and len(o.types) == 3:
            # what the function captures
            names = {x.id for x in ast.walk(o.types[0].node) if isinstance(x, ast.Name)}
            env = o.types[2] or {}
            for nm in sorted(names):
                v = env.get(nm)
                if v is not None:
                    out |= v.deps
                    for x in v.objs:
                        self._odeps(x, st, out, depth - 1, seen)
        for f in o.fnames:
            v = st.heap.get((oid, f))
            if v is not None:
                out |= v.deps
                for x in v.objs:
                    self._odeps(x, st, out, depth - 1, seen)
        # content of a copy which was reached and may have been changed in place
        for f, v in sorted(self.lazy.get(oid, {}).items()):
            if (oid, f) not in st.heap:
                for x in v.objs:
                    self._odeps(x, st, out, depth - 1, seen)

    def taint(self, st, oid, deps):
        if deps:
            cur = st.odeps.get(oid, E)
            if not deps <= cur:
                st.odeps[oid] = cur | deps

    def mutate(self, v, st, node, how, deps=E):
        deps = deps | self.cur_ctl | st.sticky
        for oid in v.objs:
            o = self.objs[oid]
            self.taint(st, oid, deps)
            o.fnames.add("#mut")
            st.heap[(oid, "#mut")] = MUT
            if o.origin is not None:
                self.mutations.setdefault((o.origin, how), (self.loc(node), self.chain()))
            for h in self.hooks:
                h.on_mutate(self, st, o, how, node)

    # ------------------------------------------------------------- functions
    def child_key(self, parent, node, fi):
        k = (parent, id(node), fi)
        r = self.keys.get(k)
        if r is None:
            r = self.keys[k] = len(self.keys) + 1
        return r

    def err_badcall(self, node, fi, msg):
        self.badcalls.setdefault((self.where(), fi.qualname if fi else "?", msg), (self.loc(node), self.chain()))
        raise Dead()

    def bind(self, fi, selfv, args, kwargs, node, st, star=False, dstar=None):
        params = fi.params
        env = {}
        i = 0
        pos = [p for p in params if p.kind == "pos"]
        va = next((p for p in params if p.kind == "vararg"), None)
        ka = next((p for p in params if p.kind == "kwarg"), None)
        allargs = ([selfv] if selfv is not None else []) + list(args)
        for p, a in zip(pos, allargs):
            env[p.name] = a
        extra = allargs[len(pos):]
        if extra and va is None and not star:
            self.err_badcall(node, fi, f"takes {len(pos)} positional arguments, {len(allargs)} given")
        if va is not None:
            oid = self.alloc("tuple", node, st, "va" + fi.name)
            for k, a in enumerate(extra):
                self.store_raw(st, oid, f"[{k}]", a)
            env[va.name] = V(objs=frozenset([oid]))
        kwleft = {}
        for k, v in kwargs.items():
            p = next((p for p in params if p.name == k and p.kind in ("pos", "kwonly")), None)
            if p is None:
                if ka is None:
                    self.err_badcall(node, fi, f"unexpected keyword argument '{k}'")
                kwleft[k] = v
            else:
                if k in env:
                    self.err_badcall(node, fi, f"multiple values for argument '{k}'")
                env[k] = v
        for p in params:
            if p.kind in ("vararg", "kwarg") or p.name in env:
                continue
            if dstar is not None:
                got = False
                for o in dstar.objs:
                    f = f"[{p.name}]"
                    if (o, f) in st.heap or self.objs[o].origin is not None or self.objs[o].clone_of is not None \
                            or self.objs[o].kind == "any" or (o, "[]") in st.heap:
                        if (o, f) not in st.heap and (o, "[]") in st.heap:
                            v = st.heap[(o, "[]")]
                        else:
                            v = self.load(st, o, f)
                        env[p.name] = v if not got else join_v(env[p.name], v)
                        got = True
                if got:
                    continue
            if star:
                env[p.name] = V(unk=frozenset(["any"]), deps=star if isinstance(star, frozenset) else E)
                continue
            if p.default is None:
                self.err_badcall(node, fi, f"missing argument '{p.name}'")
            env[p.name] = self.default_value(fi, p, st)
        if ka is not None:
            oid = self.alloc("dict", node, st, "ka" + fi.name)
            for k, v in kwleft.items():
                self.store_raw(st, oid, f"[{k}]", v)
            if dstar is not None:
                self.store_raw(st, oid, "[]", dstar)
            env[ka.name] = V(objs=frozenset([oid]))
        return env

    def store_raw(self, st, oid, f, v):
        self.objs[oid].fnames.add(f)
        st.heap[(oid, f)] = v

    def default_value(self, fi, p, st):
        d = p.default
        if isinstance(d, ast.Constant):
            return V(consts=frozenset([ckey(d.value)]))
        if isinstance(d, (ast.List, ast.Dict, ast.Set)) or (isinstance(d, ast.Call) and not
                isinstance(self.prog.resolve_expr(fi.module, d.func), tuple)):
            t = {ast.List: ("list", ANY), ast.Dict: ("dict", ANY)}.get(type(d), ("any",))
            oid = self._init_obj(t, ("<default>", fi.qualname, p.name))
            return V(objs=frozenset([oid]))
        if isinstance(d, ast.Call):
            # one object shared by all calls
            r = self.prog.resolve_expr(fi.module, d.func)
            if r and r[0] == "class" and not r[1].is_enum:
                return V(objs=frozenset([self._init_obj(("inst", r[1]), ("<default>", fi.qualname, p.name))]))
            if r and r[0] == "ext" and r[1].startswith("numpy."):
                return V(objs=frozenset([self._init_obj(("arr",), ("<default>", fi.qualname, p.name))]))
        return self.eval_static(fi.module, d, st)

    def eval_static(self, module, node, st):
        """Evaluate a module-level expression (default values, class attributes)."""
        fr = Frame(_ModFnInfo(module), self.child_key(0, node, None), node, None)
        saved_env, saved_frames = st.env, self.frames
        st.env = {}
        self.frames = self.frames + [fr]
        ctl, self.cur_ctl = self.cur_ctl, E
        sticky, st.sticky = st.sticky, E
        try:
            return self.eval(node, st)
        finally:
            st.env, self.frames = saved_env, saved_frames
            self.cur_ctl = ctl
            st.sticky = sticky

    def call_func(self, fi, selfv, args, kwargs, node, st, captured=None, star=False, dstar=None):
        self.callsites.add((self.where(), getattr(node, "lineno", 0), fi.qualname))
        env = self.bind(fi, selfv, args, kwargs, node, st, star, dstar)
        depth = sum(1 for f in self.frames if f.fi is fi)
        if depth >= MAXREC or len(self.frames) >= MAXDEPTH:
            return self.summary_result(fi, env, node, st)
        for h in self.hooks:
            r = h.on_call(self, st, fi, env, node)
            if r is not None:
                return r
        v = self.run_body(fi, env, node, st, captured)
        if v.objs and any("cache" in _decname(x) for x in fi.decorators):
            # the same objects are handed out again by later calls
            objs = set()
            for o in v.objs:
                ob = self.objs[o]
                if ob.kind in ("array", "list", "dict", "set", "inst") and ob.origin is None:
                    o = self._init_obj({"array": ("arr",), "list": ("list", ANY), "dict": ("dict", ANY),
                                        "set": ("set", ANY)}.get(ob.kind, ("inst", ob.cls)),
                                       ("<cached>", fi.qualname))
                objs.add(o)
            v = v.w(objs=frozenset(objs))
        return v

    def summary_result(self, fi, env, node, st):
        deps = E
        for v in env.values():
            deps |= self.deps_of(v, st)
        types = self.prog.ann_types(fi.module, fi.node.returns, fi.cls) if not isinstance(fi.node, ast.Lambda) else None
        if types is None:
            # fall back to the kinds of the arguments that are instances
            types = ANY
        objs, consts, unk = set(), set(), set()
        for t in types:
            if t[0] == "none":
                consts.add(NONE)
            elif t[0] in ("float", "int", "bool", "str", "complex"):
                unk.add(t[0])
            elif t[0] == "enum":
                consts |= {("e", t[1].qualname, m) for m in t[1].members}
            elif t[0] == "const":
                consts.add(ckey(t[1]))
            else:
                kind = {"inst": "inst", "arr": "array", "list": "list", "tuple": "tuple", "vartuple": "tuple",
                        "dict": "dict"}.get(t[0], "any")
                oid = self.alloc(kind, node, st, "sum" + fi.name + kind, t[1] if t[0] == "inst" else None, types=t)
                self.objs[oid].extra = ("<rec>", fi.qualname)
                self.taint(st, oid, deps)
                objs.add(oid)
        return V(frozenset(objs), frozenset(consts), frozenset(unk), None, deps)

    def run_body(self, fi, env, node, st, captured=None):
        self.functions.add(fi.qualname)
        parent = self.frames[-1] if self.frames else None
        fr = Frame(fi, self.child_key(parent.key if parent else 0, node, fi), node, parent, captured)
        self.frames.append(fr)
        saved_env, saved_sticky = st.env, st.sticky
        st.env = env
        ctl0 = self.cur_ctl
        self.cur_ctl = self.cur_ctl | st.sticky
        st.sticky = E
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body, st)
                out = st
            else:
                s = State(st.env, st.heap, st.odeps, st.facts, st.refined, E, st.tags)
                end = self.block(fi.node.body, s)
                rets = fr.returns
                if end is not None:
                    rets = rets + [(V(consts=frozenset([NONE]), deps=end.sticky), end)]
                    if rets and fr.returns and fi.node.returns is not None:
                        self.none_returns.setdefault(fi.qualname, (self.loc(fi.node), self.chain()))
                if not rets:
                    raise Dead()
                v, out = rets[0]
                if len(rets) > 1:
                    out = out.copy()
                    for v2, o2 in rets[1:]:
                        v = join_v(v, v2)
                        out = self.join(out, o2, env=False)
                st.heap, st.odeps, st.facts, st.refined = out.heap, out.odeps, out.facts, out.refined
                st.tags = out.tags
            for h in self.hooks:
                h.on_return(self, st, fi, env, v)
            return v
        finally:
            self.frames.pop()
            self.cur_ctl = ctl0
            st.env, st.sticky = saved_env, saved_sticky

    # ------------------------------------------------------------- joining
    def join(self, a, b, env=True):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        if env:
            e = {}
            ae, be = a.env, b.env
            for k, x in ae.items():
                y = be.get(k)
                if y is None:
                    e[k] = x if x.ub else x.w(ub=True)
                elif x is y:
                    e[k] = x
                else:
                    e[k] = join_v(x, y)
            for k, y in be.items():
                if k not in ae:
                    e[k] = y if y.ub else y.w(ub=True)
        else:
            e = a.env
        ah, bh = a.heap, b.heap
        if ah is bh:
            h = ah
        else:
            h = dict(ah)
            for k, y in bh.items():
                x = ah.get(k)
                if x is None:
                    x = self._missing(k, y)
                    h[k] = join_v(y, x) if x is not None else y.w(ub=True)
                elif x is not y:
                    h[k] = join_v(x, y)
            for k, x in ah.items():
                if k not in bh:
                    y = self._missing(k, x)
                    h[k] = join_v(x, y) if y is not None else x.w(ub=True)
        if a.odeps is b.odeps:
            od = a.odeps
        else:
            od = dict(a.odeps)
            for k, y in b.odeps.items():
                x = od.get(k)
                od[k] = y if x is None else (x if x is y else x | y)
        if a.refined is b.refined or a.refined == b.refined:
            rf = a.refined
        else:
            rf = {}
            for k, x in a.refined.items():
                y = b.refined.get(k)
                if y is not None:
                    if x == y:
                        rf[k] = x
                    else:
                        only = x[0] | y[0] if (x[0] is not None and y[0] is not None) else None
                        no = x[1] & y[1]
                        if only is not None or no:
                            rf[k] = (only, no)
        return State(e, h, od, a.facts & b.facts, rf, a.sticky | b.sticky, a.tags | b.tags)

    def _missing(self, k, other):
        oid, f = k
        if f == "#mut":
            return None
        o = self.objs[oid]
        if o.origin is not None or o.clone_of is not None or o.extra is not None:
            return self.init_value(oid, f)
        return None

    # ----------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            try:
                st = self.stmt(s, st)
            except Dead:
                return None
        return st

    def stmt(self, n, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        self.reached.add((self.frames[-1].fi.qualname, id(n)))
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported statement {type(n).__name__} at {self.loc(n)}")
        return m(n, st)

    def s_Expr(self, n, st):
        self.eval(n.value, st)
        return st

    def s_Pass(self, n, st):
        return st

    s_Nonlocal = s_Pass

    def s_Global(self, n, st):
        fr = self.frames[-1]
        for nm in n.names:
            for x in ast.walk(fr.fi.node):
                if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, (ast.Store, ast.Del)):
                    self.global_writes.setdefault(("module", fr.module.name, nm), (self.loc(n), self.chain()))
                    break
        return st

    def s_Import(self, n, st):
        for a in n.names:
            s = self.prog._modsym(a.name if a.asname else a.name.split(".")[0])
            st.env[a.asname or a.name.split(".")[0]] = self.sym_value(s, st)
        return st

    def s_ImportFrom(self, n, st):
        base = self.prog._abs(self.frames[-1].module, n)
        for a in n.names:
            if base in self.prog.modules:
                r = self.prog.resolve(self.prog.modules[base], a.name)
                if r is None and base + "." + a.name in self.prog.modules:
                    r = ("mod", base + "." + a.name)
            elif base == "dsptoolbox" or base.startswith("dsptoolbox."):
                r = None
            else:
                r = ("ext", base + "." + a.name)
            if r is None:
                self.attrerrs.setdefault((self.where(), f"import {base}.{a.name}"), (self.loc(n), self.chain()))
                raise Dead()
            st.env[a.asname or a.name] = self.sym_value(r, st)
        return st

    def s_FunctionDef(self, n, st):
        fr = self.frames[-1]
        fi = getattr(n, "_fi", None)
        if fi is None:
            fi = FuncInfo(n.name, n, fr.module, fr.cls, "func", fr.fi)
            fi.qualname = fr.fi.qualname + ".<locals>." + n.name
            n._fi = fi
        st.env[n.name] = self.closure(fi, st).adddeps(self.cur_ctl | st.sticky)
        return st

    def s_ClassDef(self, n, st):
        st.env[n.name] = V(unk=frozenset(["any"]))
        return st

    def closure(self, fi, st):
        self.captures.append(st)
        oid = self.alloc("func", fi.node, st)
        o = self.objs[oid]
        o.extra = None
        o.types = (fi, self.frames[-1], st.env)
        return V(objs=frozenset([oid]))

    def s_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else V(consts=frozenset([NONE]))
        v = v.adddeps(self.cur_ctl | st.sticky)
        if v.ub:
            v = v.w(ub=False)
        self.frames[-1].returns.append((v, st))
        return None

    def s_Raise(self, n, st):
        if n.exc is not None:
            try:
                e = n.exc
                # argument evaluation of the message is irrelevant
                self.raises.append((self.loc(n), self.where(), st.facts))
            except Dead:
                pass
        self.frames[-1].raised = True
        self.raise_deps |= self.cur_ctl | st.sticky
        return None

    def s_Assert(self, n, st):
        v = self.eval(n.test, st)
        t = self.truth(v)
        if t == {False}:
            self.raises.append((self.loc(n), self.where(), st.facts))
            return None
        self.guard(n.test, v, True, st, n)
        self.raise_deps |= self.cur_ctl | st.sticky | self.deps_of(v, st)
        if not self.refine(n.test, True, st):
            self.raises.append((self.loc(n), self.where(), st.facts))
            return None
        return st

    def guard(self, test, v, holds, st, node):
        """the program continues only if `test` is `holds`"""
        for part, h in self.conjuncts(test, holds):
            pv = self.lastcmp.get(id(part))
            s = pv[2] if pv else None
            if s is not None and not h:
                s = negate(s)
            d = self.deps_of(pv[3], st) if pv else self.deps_of(v, st)
            key = (s, d, self.cur_ctl | st.sticky)
            self.may_checks.setdefault(key, (self.loc(node), self.where()))
            if self.opt.get("guards"):
                self.record_guard(part, h, v if part is test else None, d, st, node)
            if s is not None:
                st.facts = st.facts | {s}
            if d:
                st.facts = st.facts | {("chk", d)}

    def record_guard(self, part, h, v, d, st, node):
        ls = self.loose(part, h, st, v)
        if ls is None:
            ls = ("t" if h else "f", ("D", leaf_deps(d), ""))
        if self.frames[-1].partial:
            ls = ls + ("part",)
        lc = self.lastcmp.get(id(part))
        pv = lc[3] if lc and lc[3] is not None else v if v is not None else self.lastval.get(id(part))
        decided = pv is not None and self.truth(pv) == {h}
        n = part.node if isinstance(part, _PartNode) else part
        k = (self.loc(node), getattr(n, "col_offset", 0), part.i if isinstance(part, _PartNode) else 0, ls)
        fr = self.frames[-1]
        old = self.guards.get(k)
        if old is None or (old[0] and not decided):
            self.guards[k] = (decided, fr.fi)
        st.facts = st.facts | {("g", ls)}

    def leaves_out(self, it, zipped=False, depth=3):
        """the iteration visibly leaves out members other than the first (which the others may be compared with)"""
        if isinstance(it, ast.Name) and depth:
            fn = self.frames[-1].fi.node
            vals = [a.value for a in ast.walk(fn) if isinstance(a, ast.Assign) and len(a.targets) == 1
                    and isinstance(a.targets[0], ast.Name) and a.targets[0].id == it.id]
            return len(vals) == 1 and isinstance(vals[0], ast.Subscript) and self.leaves_out(vals[0], zipped, depth - 1)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.args:
            if it.func.id in ("enumerate", "list", "tuple", "reversed", "iter"):
                return self.leaves_out(it.args[0], zipped, depth)
            if it.func.id == "zip":
                return any(self.leaves_out(a, True, depth) for a in it.args)
        if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice):
            def const(x):
                try:
                    return ast.literal_eval(x)
                except (ValueError, TypeError, SyntaxError):
                    return None
            sl = it.slice
            lo, up = (None if x is None else const(x) for x in (sl.lower, sl.upper))
            if sl.step is not None and const(sl.step) not in (1, -1, None):
                return True
            if isinstance(lo, int) and lo not in (0, 1):
                return True
            return isinstance(up, int) and not (zipped and up == -1)
        return False

    @staticmethod
    def call_name(n):
        return n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None

    def opaque(self, v, st, node=None):
        """symbolic name of a value; what it depends on when nothing better"""
        if v.sym is not None and v.sym[0] in CONDS and "obj" not in sym_heads(v.sym):
            return v.sym
        c = v.single_const()
        if c is not None:
            return c
        if v.sym is not None and "obj" not in sym_heads(v.sym):
            return v.sym
        hint = ""
        while isinstance(node, ast.Subscript):
            hint = "[]" + hint
            node = node.value
        if isinstance(node, ast.Attribute):
            hint = node.attr + hint
        elif isinstance(node, ast.Call):
            hint = (self.call_name(node) or "") + hint
        return ("D", leaf_deps(self.deps_of(v, st)), hint)

    def loose(self, test, h, st, v=None):
        """canonical form of the condition `test is h`, from the values its
        parts had when it was last evaluated"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.loose(test.operand, not h, st)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == h
            ps = [self.loose(x, h, st) for x in test.values]
            ps = [p for p in ps if p is not None]
            if not ps:
                return None
            return ("and" if conj else "or",) + tuple(sorted(set(ps), key=repr))
        if isinstance(test, _PartNode):
            lc = self.lastcmp.get(id(test))
            if not lc or lc[0] is None:
                return None
            op = self.CMP[type(test.node.ops[test.i])]
            rn = test.node.comparators[test.i]
            ln = test.node.left if test.i == 0 else test.node.comparators[test.i - 1]
            return self.loose_cmp(op, ln, rn, lc, h, st)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            lc = self.lastcmp.get(id(test))
            if not lc or lc[0] is None:
                return None
            return self.loose_cmp(self.CMP[type(test.ops[0])], test.left, test.comparators[0], lc, h, st)
        if isinstance(test, ast.Compare):
            ps = []
            for i in range(len(test.ops)):
                lc = self.lastcmp.get(("c", id(test), i))
                if lc:
                    ln = test.left if i == 0 else test.comparators[i - 1]
                    ps.append(self.loose_cmp(self.CMP[type(test.ops[i])], ln, test.comparators[i], lc, h, st))
            return ("and" if h else "or",) + tuple(sorted(set(ps), key=repr)) if ps else None
        if isinstance(test, ast.Call):
            fn = test.func.id if isinstance(test.func, ast.Name) else test.func.attr \
                if isinstance(test.func, ast.Attribute) else None
            if fn == "isinstance":
                lc = self.lastcmp.get(id(test))
                if lc and lc[2] is not None:
                    return lc[2] if h else negate(lc[2])
                if lc and lc[0] is not None:
                    return ("cmp", "isinst" if h else "notinst", self.opaque(lc[0], st, test.args[0]), ("set", "?"))
                return None
            inner = None
            if fn in ("all", "any") and len(test.args) == 1:
                inner = test.args[0]
            elif fn in ("all", "any") and not test.args and isinstance(test.func, ast.Attribute):
                inner = test.func.value
            if inner is not None:
                hh = h
                filt = ()
                while isinstance(inner, ast.Call) and len(inner.args) == 1 and isinstance(inner.func, ast.Name) \
                        and inner.func.id in ("list", "tuple"):
                    inner = inner.args[0]
                if isinstance(inner, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                    if any(g.ifs for g in inner.generators):
                        filt = ("filtered",)
                    if any(self.leaves_out(g.iter) for g in inner.generators):
                        filt += ("part",)
                    inner = inner.elt
                ls = self.loose(inner, hh, st)
                if ls is None:
                    ls = ("t" if hh else "f", ("?",))
                    lv = self.lastval.get(id(inner))
                    if lv is not None:
                        ls = ("t" if hh else "f", self.opaque(lv, st, inner))
                every = (fn == "all") == h
                if filt:
                    ls = ls + filt
                return ls if every else ("exists", ls)
        lv = v if v is not None else self.lastval.get(id(test))
        if lv is None:
            return None
        o = self.opaque(lv, st, test)
        if isinstance(o, tuple) and o and o[0] in CONDS:
            return o if h else neg_cond(o)
        return ("t" if h else "f", o)

    def loose_cmp(self, op, ln, rn, lc, h, st):
        a, b = lc[0], lc[1]
        if isinstance(ln, ast.Call) and isinstance(ln.func, ast.Name) and ln.func.id == "type" and len(ln.args) == 1:
            cls = self.possible_consts(b, st) if op in ("in", "notin") else frozenset(b.consts)
            x = self.lastval.get(id(ln.args[0]))
            if cls and x is not None:
                pos = (op in ("is", "==", "in")) == h
                names = ("set",) + tuple(sorted(str(c[1]) for c in cls))
                return ("cmp", "isinst" if pos else "notinst", self.opaque(x, st, ln.args[0]), names)
        if op in ("in", "notin"):
            pc = self.possible_consts(b, st)
            rhs = ("set",) + tuple(sorted(pc, key=repr)) if pc is not None else self.opaque(b, st, rn)
            s = ("cmp", op, self.opaque(a, st, ln), rhs)
        else:
            s = canon_cmp(op, self.opaque(a, st, ln), self.opaque(b, st, rn))
        return s if h else negate(s)

    def conjuncts(self, test, holds):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            yield from self.conjuncts(test.operand, not holds)
        elif isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and holds:
            for x in test.values:
                yield from self.conjuncts(x, True)
        elif isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or) and not holds:
            for x in test.values:
                yield from self.conjuncts(x, False)
        elif isinstance(test, ast.Compare) and len(test.ops) > 1 and holds:
            for i in range(len(test.ops)):
                k = ("c", id(test), i)
                self.lastcmp[id(_Part.get(test, i))] = self.lastcmp.get(k)
                yield _Part.get(test, i), True
        else:
            yield test, holds

    def s_Assign(self, n, st):
        v = self.eval(n.value, st)
        for t in n.targets:
            self.assign(t, v, st, n)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            v = self.eval(n.value, st)
            self.assign(n.target, v, st, n)
        return st

    def s_AugAssign(self, n, st):
        t = n.target
        rv = self.eval(n.value, st)
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            res = self.aug(n, cur, rv, st)
            self.assign(t, res, st, n)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            cur = self.getattr(base, t.attr, t, st)
            self.aug_receivers = base.objs      # changed in place, then assigned
            res = self.aug(n, cur, rv, st)
            self.aug_receivers = E
            self.setattr(base, t.attr, res, t, st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            cur = self.subscript(base, idx, t, st)
            # element update
            res = self.aug(n, cur, rv, st, elem=True)
            self.setitem(base, idx, res, t, st)
        return st

    def aug(self, n, cur, rv, st, elem=False):
        deps = cur.deps | self.deps_of(rv, st) | self.cur_ctl | st.sticky
        arr = frozenset(o for o in cur.objs if self.kind(o) in ("array", "any", "list", "set", "dict"))
        if arr and not cur.weak:
            self.mutate(V(objs=arr), st, n, "augassign", deps)
            lists = [o for o in arr if self.kind(o) == "list"]
            if lists and isinstance(n.op, ast.Add) and (rv.objs or rv.consts):
                e = self.iter_elems(rv, n, st)[0]
                for o in lists:
                    self._add_elem(o, e, st)
        if cur.objs and not arr:
            # object with operator: fresh result
            pass
        res = self.binop_value(n, n.op, cur, rv, st)
        if arr and not cur.weak:
            if self.marker is not None:
                for o in arr:
                    self.taint(st, o, frozenset(x for x in self.deps_of(res, st) if x[0] == "#"))
            res = V(objs=arr, consts=res.consts if not arr else E, unk=cur.unk - frozenset(["none"]), deps=deps,
                    unit=res.unit)
        return res

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                self.mutate(base, st, n, "del")
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value, st)
                for o in base.objs:
                    f = mangle(self.frames[-1].cls, t.attr)
                    self.store(st, o, f, V(unk=frozenset(["deleted"])), n)
        return st

    def s_If(self, n, st):
        cv = self.eval(n.test, st)
        t = self.truth(cv)
        cdeps = self.deps_of(cv, st)
        return self.branch(n, cv, t, cdeps, st,
                           [(lambda s: self.refine(n.test, True, s), n.body, n.test, True),
                            (lambda s: self.refine(n.test, False, s), n.orelse, n.test, False)])

    def branch(self, n, cv, t, cdeps, st, alts):
        fr = self.frames[-1]
        outs = []
        ctl0 = self.cur_ctl
        if self.data_only:
            cdeps = E
        self.cur_ctl = self.cur_ctl | cdeps
        ended = []
        raise_only = []
        nfeas = 0
        for i, (ref, body, test, val) in enumerate(alts):
            if val not in t:
                outs.append((None, "raise" if self.keepvals and body and isinstance(body[-1], ast.Raise)
                             else "infeasible"))
                continue
            s = st.copy()
            try:
                ok = ref(s)
            except Dead:
                ok = False
            if not ok:
                outs.append((None, "infeasible"))
                continue
            nfeas += 1
            if self.keepvals and test is not None:
                for part, h in self.conjuncts(test, val):
                    ls = self.loose(part, h, s)
                    if ls is not None:
                        s.facts = s.facts | {("g", ls)}
            r0 = len(fr.returns) + sum(len(lp[0]) + len(lp[1]) for lp in fr.loops)
            e = self.block(body, s)
            r1 = len(fr.returns) + sum(len(lp[0]) + len(lp[1]) for lp in fr.loops)
            if e is None:
                outs.append((None, "jump" if r1 > r0 else "raise"))
            else:
                outs.append((e, "jump" if r1 > r0 else "fall"))
        self.cur_ctl = ctl0
        kinds = [k for _, k in outs]
        res = None
        live = [e for e, _ in outs if e is not None]
        if not live:
            return None
        # guards: one side raises, the other continues
        if len(outs) == 2:
            (e0, k0), (e1, k1) = outs
            if k0 == "raise" and e1 is not None:
                self.guard(n.test, cv, False, e1, n)
            elif k1 == "raise" and e0 is not None:
                self.guard(n.test, cv, True, e0, n)
        res = live[0]
        for e in live[1:]:
            res = self.join(res, e)
        if "jump" in kinds:
            res.sticky = res.sticky | cdeps
        return res

    def s_Match(self, n, st):
        subj = self.eval(n.subject, st)
        cdeps = self.deps_of(subj, st)
        fr = self.frames[-1]
        ctl0 = self.cur_ctl
        if self.data_only:
            cdeps = E
        self.cur_ctl = self.cur_ctl | cdeps
        res = None
        jumped = False
        cur = st
        remaining = subj
        fallthrough = True
        for case in n.cases:
            if cur is None:
                break
            tv, match_v, rest_v, binds = self.pattern(case.pattern, remaining, cur)
            if True in tv:
                s = cur.copy()
                self.refine_to(n.subject, match_v, s, remaining)
                for k, bv in binds.items():
                    s.env[k] = bv
                feasible = True
                if case.guard is not None:
                    gv = self.eval(case.guard, s)
                    gt = self.truth(gv)
                    if True not in gt:
                        feasible = False
                    else:
                        feasible = self.refine(case.guard, True, s)
                    tv = tv | {False}
                    rest_v = remaining
                if feasible:
                    r0 = len(fr.returns) + sum(len(lp[0]) + len(lp[1]) for lp in fr.loops)
                    e = self.block(case.body, s)
                    r1 = len(fr.returns) + sum(len(lp[0]) + len(lp[1]) for lp in fr.loops)
                    if r1 > r0:
                        jumped = True
                    res = self.join(res, e)
            if False not in tv:
                fallthrough = False
                break
            cur = cur.copy()
            self.refine_to(n.subject, rest_v, cur, remaining)
            remaining = rest_v
        self.cur_ctl = ctl0
        if fallthrough and cur is not None:
            res = self.join(res, cur)
        if res is not None and jumped:
            res.sticky = res.sticky | cdeps
        return res

    def pattern(self, p, v, st):
        """-> (truth set, matched value, rest value, bindings)"""
        if isinstance(p, ast.MatchValue):
            c = self.eval(p.value, st).single_const()
            return self._match_const(c, v)
        if isinstance(p, ast.MatchSingleton):
            return self._match_const(ckey(p.value), v)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                b = {p.name: v} if p.name else {}
                return {True}, v, v, b
            t, m, r, b = self.pattern(p.pattern, v, st)
            if p.name:
                b = dict(b)
                b[p.name] = m
            return t, m, r, b
        if isinstance(p, ast.MatchOr):
            t = {False}
            m = None
            rest = v
            for q in p.patterns:
                tq, mq, rest2, _ = self.pattern(q, rest, st)
                if True in tq:
                    t.add(True)
                    m = mq if m is None else join_v(m, mq)
                if False not in tq:
                    return {True} if t == {False, True} and m is not None and rest2 is None else (t - {False}), m, rest, {}
                rest = rest2
            return t, (m if m is not None else v), rest, {}
        if isinstance(p, ast.MatchClass):
            return {True, False}, v, v, {}
        return {True, False}, v, v, {}

    def _match_const(self, c, v):
        if self.marker is not None and c is not None:
            self.marker.t_match(c, v)
        if c is None:
            return {True, False}, v, v, {}
        opaque = bool(v.unk) or any(self.kind(o) in ("any", "callable", "ext") for o in v.objs)
        t = set()
        if c in v.consts or opaque:
            t.add(True)
        if (v.consts - {c}) or v.objs or v.unk:
            t.add(False)
        if not t:
            t = {False}
        return t, V(consts=frozenset([c]), sym=v.sym, deps=v.deps), v.w(consts=v.consts - {c}), {}

    def refine_to(self, target, newv, st, oldv):
        if newv is None:
            return
        if isinstance(target, ast.Name) and target.id in st.env:
            st.env[target.id] = newv.w(deps=oldv.deps, sym=oldv.sym)
        if oldv.sym is not None and not newv.objs and not newv.unk and newv.consts:
            self._add_refined(st, oldv.sym, newv.consts, None)
        elif oldv.sym is not None and oldv.consts - newv.consts:
            self._add_refined(st, oldv.sym, None, oldv.consts - newv.consts)

    def _add_refined(self, st, sym, only, no):
        if sym[0] != "p" and sym[0] != "call" and sym[0] != "idx":
            return
        o0, n0 = st.refined.get(sym, (None, E))
        if only is not None:
            only = only if o0 is None else (o0 & only or only)
        else:
            only = o0
        st.refined = dict(st.refined)
        st.refined[sym] = (only, n0 | (no or E))

    def s_For(self, n, st):
        it = self.eval(n.iter, st)
        elems, exact = self.iter_elems(it, n, st)
        ideps = self.deps_of(it, st)
        outer, self.idx_replaced = self.idx_replaced, set()
        fr = self.frames[-1]
        part = self.leaves_out(n.iter)
        fr.partial = fr.partial + part
        runs = bool(self.opt.get("loops_run")) and not any(self.kind(o) == "dict" for o in it.objs)
        try:
            return self.loop(n, st, lambda s: self._bind_iter(n.target, elems, s, n), ideps,
                             maybe_empty=not exact and not runs)
        finally:
            self.idx_replaced = outer
            fr.partial -= part

    def _bind_iter(self, target, elem, s, n):
        self.assign(target, elem, s, n)
        return True

    def s_While(self, n, st):
        cv = self.eval(n.test, st)
        t = self.truth(cv)
        cdeps = self.deps_of(cv, st)

        def start(s):
            c = self.eval(n.test, s)
            if True not in self.truth(c):
                return False
            return self.refine(n.test, True, s)
        if True not in t:
            return st
        return self.loop(n, st, start, cdeps, maybe_empty=False in t, infinite=(t == {True}))

    def loop(self, n, st, start, ideps, maybe_empty=True, infinite=False):
        fr = self.frames[-1]
        ctl0 = self.cur_ctl
        if self.data_only:
            ideps = E
        self.cur_ctl = self.cur_ctl | ideps
        breaks, conts = [], []
        fr.loops.append((breaks, conts))
        entry = st.copy()
        cur = st
        out = None
        nret0 = len(fr.returns)
        depth = sum(len(f.loops) for f in self.frames)
        for it in range(3 if depth <= 1 else 2 if depth == 2 else 1):
            s = cur.copy()
            del conts[:]
            try:
                ok = start(s)
            except Dead:
                ok = False
            if not ok:
                break
            e = self.block(n.body, s)
            for c in conts:
                e = self.join(e, c)
            if e is None:
                break
            facts_body = e.facts
            out = e if out is None else self.join(out, e)
            nxt = self.join(cur.copy(), e)
            if same_state(nxt, cur):
                break
            cur = nxt
        fr.loops.pop()
        self.cur_ctl = ctl0
        res = None
        if out is not None:
            # exit after at least one iteration; guards passed in the body count
            res = out.copy()
            if maybe_empty:
                f = res.facts
                for o in self.idx_replaced:
                    # no iteration: the indexed container has no elements
                    entry.heap = dict(entry.heap)
                    for k in [k for k in entry.heap if k[0] == o and k[1].startswith("[")]:
                        del entry.heap[k]
                    entry.heap[(o, "[]")] = V()
                res = self.join(res, entry)
                res.facts = f | (entry.facts & f)
        elif maybe_empty:
            res = entry
        if infinite and not breaks:
            return None
        if infinite:
            res = None
        if n.orelse and res is not None:
            res = self.block(n.orelse, res)
        for b in breaks:
            res = self.join(res, b)
        if res is None:
            # the body always leaves the function on its first iteration
            return entry if maybe_empty else None
        if breaks or len(fr.returns) > nret0:
            res.sticky = res.sticky | ideps
        return res

    def s_Break(self, n, st):
        self.frames[-1].loops[-1][0].append(st)
        return None

    def s_Continue(self, n, st):
        self.frames[-1].loops[-1][1].append(st)
        return None

    def s_With(self, n, st):
        for it in n.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, n)
        return self.block(n.body, st)

    def s_Try(self, n, st):
        before = st.copy()
        after = self.block(n.body, st)
        handler_entry = before
        if after is not None:
            handler_entry = self.join(before.copy(), after)
        outs = []
        if after is not None and n.orelse:
            after = self.block(n.orelse, after)
        outs.append(after)
        for h in n.handlers:
            s = handler_entry.copy()
            if h.name:
                s.env[h.name] = V(unk=frozenset(["any"]))
            outs.append(self.block(h.body, s))
        res = None
        for o in outs:
            res = self.join(res, o)
        if n.finalbody:
            if res is None:
                self.block(n.finalbody, handler_entry.copy())
                return None
            res = self.block(n.finalbody, res)
        return res

    # ---------------------------------------------------------- assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            v = v.adddeps(self.cur_ctl | st.sticky)
            if v.ub:
                v = v.w(ub=False)
            st.env[t.id] = v
            for h in self.hooks:
                h.on_assign(self, st, t.id, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if len(v.objs) == 1 and not v.consts and not v.unk and not any(isinstance(e, ast.Starred) for e in t.elts):
                ob = self.objs[next(iter(v.objs))]
                if ob.kind == "tuple" and ob.origin is None and ob.clone_of is None and ob.extra is None:
                    ln = self.known_len(ob.oid, st)
                    if ln is not None and ln != n:
                        self.typeerrs.setdefault((self.where(), f"unpack {ln} values into {n} targets"),
                                                 (self.loc(node), self.chain()))
                        raise Dead()
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    ev = self.elem_join(v, st, node)
                    oid = self.alloc("list", e, st, "star")
                    self.store_raw(st, oid, "[]", ev)
                    self.assign(e.value, V(objs=frozenset([oid])), st, node)
                    continue
                self.assign(e, self.unpack(v, i, n, st, node), st, node)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            self.setattr(base, t.attr, v, t, st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            self.setitem(base, idx, v, t, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def unpack(self, v, i, n, st, node):
        out = None
        for o in v.objs:
            ob = self.objs[o]
            if ob.kind in ("tuple", "list"):
                f = f"[{i}]"
                if (o, f) in st.heap:
                    x = self.load(st, o, f)
                elif ob.types and ob.types[0] == "tuple" and (ob.origin or ob.clone_of is not None):
                    x = self.load(st, o, f)
                elif ob.types and ob.types[0] == "tuple" and ob.extra:
                    x = self.load(st, o, f)
                else:
                    length = self.known_len(o, st)
                    if length is not None and length != n and ob.kind == "tuple":
                        self.typeerrs.setdefault((self.where(), f"unpack {length} values into {n} targets"),
                                                 (self.loc(node), self.chain()))
                    x = self.elem_obj(o, st)
            elif ob.kind == "array":
                x = self.subscript(V(objs=frozenset([o]), deps=v.deps), ("int", None), node, st)
            else:
                x = self.elem_obj(o, st)
            out = x if out is None else join_v(out, x)
        if v.unk or not v.objs:
            x = V(unk=frozenset(["any"]), deps=v.deps,
                  sym=mk("idx", v.sym, ("c", "int", i)) if v.sym and not v.objs else None)
            out = x if out is None else join_v(out, x)
        return out.adddeps(v.deps)

    def known_len(self, o, st):
        ob = self.objs[o]
        if ob.origin is not None or ob.clone_of is not None or ob.extra is not None:
            if ob.types and ob.types[0] == "tuple":
                return len(ob.types[1])
            return None
        idx = set()
        for f in ob.fnames:
            if (o, f) not in st.heap:
                continue
            if f == "[]" or f == "#mut":
                return None
            if f.startswith("[") and f[1:-1].isdigit():
                idx.add(int(f[1:-1]))
            else:
                return None
        if ob.kind in ("tuple", "list") and ob.site is not None and isinstance(ob.site, (ast.Tuple, ast.List)):
            return len(idx)
        return None

    def elem_obj(self, o, st):
        """join of everything contained in object o"""
        ob = self.objs[o]
        if ob.kind == "ext":
            # parts of an external object are not distinguished from it
            return V(objs=frozenset([o]), unk=frozenset(["any"]), deps=st.odeps.get(o, E))
        out = None
        for f in sorted(ob.fnames):
            if f.startswith("[") and (o, f) in st.heap:
                x = self.apply_refined(st, st.heap[(o, f)])
                out = x if out is None else join_v(out, x)
        if ob.origin is not None or ob.clone_of is not None or ob.extra is not None:
            x = self.load(st, o, "[]")
            out = x if out is None else join_v(out, x)
        if out is None:
            if ob.kind in ("array",):
                out = V(unk=frozenset(["float"]))
            else:
                out = V(unk=frozenset(["any"]))
        d = st.odeps.get(o)
        return out.adddeps(d) if d else out

    def elem_join(self, v, st, node):
        out = None
        for o in v.objs:
            k = self.kind(o)
            if k == "array":
                x = V(objs=frozenset([o]), unk=frozenset(["float"]), deps=v.deps | st.odeps.get(o, E), weak=True)
            else:
                x = self.elem_obj(o, st)
            out = x if out is None else join_v(out, x)
        if out is None or v.unk or v.consts:
            x = V(unk=frozenset(["any"]), deps=v.deps)
            out = x if out is None else join_v(out, x)
        return out.adddeps(v.deps)

    def iter_elems(self, v, node, st):
        """-> (element value, known to be non-empty)"""
        out = None
        exact = False
        for o in v.objs:
            ob = self.objs[o]
            if ob.kind == "iter":
                x = self.elem_obj(o, st)
                if ob.nonempty:
                    exact = True
            elif ob.kind == "dict":
                x = V(unk=frozenset(["any"]), deps=v.deps)
            elif ob.kind == "inst":
                # iteration protocol of repo classes
                k, th = ob.cls.lookup("__iter__")
                x = None
                k2, th2 = ob.cls.lookup("__getitem__")
                if k == "method":
                    r = self.call_func(th, V(objs=frozenset([o])), [], {}, node, st)
                    x = self.iter_elems(r, node, st)[0]
                elif k2 == "method":
                    x = self.call_func(th2, V(objs=frozenset([o])), [V(unk=frozenset(["int"]))], {}, node, st)
                else:
                    self.typeerrs.setdefault((self.where(), f"iterating over {ob.cls.name}"),
                                             (self.loc(node), self.chain()))
                    x = V(unk=frozenset(["any"]))
            elif ob.kind == "array":
                x = V(objs=frozenset([o]), unk=frozenset(["float"]), deps=v.deps | st.odeps.get(o, E), weak=True)
            else:
                x = self.elem_obj(o, st)
                kl = self.known_len(o, st)
                if kl:
                    exact = True
            out = x if out is None else join_v(out, x)
        if len(v.objs) != 1 or v.unk or v.consts:
            exact = False
        for c in v.consts:
            if c[0] == "om" and self.kind(c[1]) == "ext":
                x = V(objs=frozenset([c[1]]), unk=frozenset(["any"]), deps=v.deps)
                out = x if out is None else join_v(out, x)
            if c[0] == "k" and c[1].is_enum:
                x = V(consts=frozenset(("e", c[1].qualname, m) for m in c[1].members))
                out = x if out is None else join_v(out, x)
        if v.unk or out is None:
            x = V(unk=frozenset(["any"]), deps=v.deps)
            out = x if out is None else join_v(out, x)
        if out.sym is None and v.sym is not None and len(v.objs) == 1:
            out = out.w(sym=mk("elem", v.sym)) if not out.consts else out
        return out.adddeps(v.deps), exact

    # ----------------------------------------------------------- attributes
    def class_of(self, o):
        return self.objs[o].cls

    def concrete(self, cls, name):
        """implementations of `name` for an object declared of class cls"""
        k, th = cls.lookup(name)
        if k == "method" and any(_is_abs(d) for d in th.decorators):
            out = []
            for s in cls.all_subclasses():
                k2, t2 = s.lookup(name)
                if k2 == "method" and t2 not in out and not any(_is_abs(d) for d in t2.decorators):
                    out.append(t2)
            return k, out or [th]
        if k is None:
            # declared base type, attribute provided by subclasses
            out = []
            kk = None
            for s in cls.all_subclasses():
                k2, t2 = s.lookup(name)
                if k2 is not None and t2 not in out:
                    kk = kk or k2
                    if k2 == kk:
                        out.append(t2)
            if out:
                return kk, out
        return k, [th]

    def getattr(self, base, name, node, st):
        out = None
        fr = self.frames[-1]
        for o in sorted(base.objs):
            x = self.getattr_obj(o, name, node, st, base)
            if x is None:
                continue
            out = x if out is None else join_v(out, x)
        for c in base.consts:
            x = self.getattr_const(c, name, node, st)
            if x is None:
                continue
            out = x if out is None else join_v(out, x)
        if base.unk:
            x = V(unk=frozenset(["any"]), deps=base.deps,
                  sym=mk("attr", base.sym, name) if base.sym and not base.objs else None)
            out = x if out is None else join_v(out, x)
        if out is None:
            if base.single_const() == NONE:
                self.none_err(node, f"None has no attribute {name}")
            raise Dead()
        if self.shape_drop and name in ("shape", "ndim", "size") and base.deps:
            return out.adddeps(self.shape_deps(base.deps))
        return out.adddeps(base.deps) if base.deps and not out.deps >= base.deps else out

    def none_err(self, node, msg):
        self.typeerrs.setdefault((self.where(), msg), (self.loc(node), self.chain()))
        raise Dead()

    def getattr_const(self, c, name, node, st):
        k = c[0]
        if k == "m":
            mod = self.prog.modules.get(c[1])
            r = self.prog.resolve(mod, name)
            if r is None:
                self.attrerrs.setdefault((self.where(), f"module {c[1]} has no attribute {name}"),
                                         (self.loc(node), self.chain()))
                return None
            return self.sym_value(r, st)
        if k == "x":
            return V(consts=frozenset([("x", c[1] + "." + name)]))
        if k == "k":
            ci = c[1]
            if ci.is_enum and name in ci.members:
                return V(consts=frozenset([("e", ci.qualname, name)]))
            kk, th = ci.lookup(name)
            if kk == "method":
                return V(consts=frozenset([("cm", ci, th)]))
            if kk == "attr":
                return self.classattr(th[0], name, st)
            if kk == "prop":
                return V(unk=frozenset(["any"]))
            if name in ("__name__", "__qualname__", "__doc__", "__members__", "_member_names_", "__mro__"):
                return V(unk=frozenset(["str"]))
            if ci.has_ext_base():
                return V(unk=frozenset(["any"]))
            self.attrerrs.setdefault((self.where(), f"class {ci.name} has no attribute {name}"),
                                     (self.loc(node), self.chain()))
            return None
        if k == "e":
            ci = self.prog.classes.get(c[1])
            if name == "name":
                return V(consts=frozenset([ckey(c[2])]))
            if name == "value":
                vn = ci.members.get(c[2])
                if isinstance(vn, ast.Constant):
                    return V(consts=frozenset([ckey(vn.value)]))
                return V(unk=frozenset(["any"]))
            if name in ci.members:
                return V(consts=frozenset([("e", ci.qualname, name)]))
            kk, th = ci.lookup(name)
            if kk == "method":
                return V(consts=frozenset([("em", c, th)]))
            if kk == "prop":
                return self.call_func(th[0], V(consts=frozenset([c])), [], {}, node, st)
            # attribute set on the members (e.g. in __init__)
            if self._enum_has_field(ci, name):
                g = ("<enum>", ci.name, c[2], name)
                v = self.from_types(ANY, g)
                return v
            self.attrerrs.setdefault((self.where(), f"enum {ci.name} has no attribute {name}"),
                                     (self.loc(node), self.chain()))
            return None
        if k == "n":
            return None       # None.attr : feasible only on excluded paths
        if k in ("f", "cm", "bm", "b", "em", "xm"):
            return V(unk=frozenset(["any"]))
        if k == "c":
            if c[1] == "str":
                return V(consts=frozenset([("sm", c[2], name)]))
            return V(unk=frozenset(["any"]))
        if k == "super":
            oid, ci = c[1], c[2]
            cls = self.objs[oid].cls or ci
            mro = cls.mro()
            i = mro.index(ci) if ci in mro else 0
            for b in mro[i + 1:]:
                if name in b.methods:
                    return V(consts=frozenset([("bm", oid, b.methods[name])]))
                if name in b.getters:
                    return self.call_func(b.getters[name], V(objs=frozenset([oid])), [], {}, node, st)
            return V(unk=frozenset(["any"]))
        return V(unk=frozenset(["any"]))

    def _enum_has_field(self, ci, name):
        for n in ast.walk(ci.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name:
                return True
        return False

    def classattr(self, ci, name, st):
        oidkey = ("classattr", ci, name)
        v = self.globals.get(oidkey)
        if v is None:
            val = ci.attrs[name]
            v = self.global_val(("<class>", ci.qualname, name), ci.module, val, st)
            self.globals[oidkey] = v
        return v

    def global_val(self, path, module, valnode, st):
        if isinstance(valnode, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)):
            t = {ast.List: ("list", ANY), ast.ListComp: ("list", ANY), ast.Dict: ("dict", ANY),
                 ast.DictComp: ("dict", ANY)}.get(type(valnode), ("set",))
            return V(objs=frozenset([self._init_obj(t, path)]))
        if isinstance(valnode, ast.Call):
            ty = self.prog.light_type(_ModFn(module), valnode, 0)
            if any(t[0] in ("arr", "inst", "list", "dict") for t in ty):
                return self.from_types(ty, path).w(deps=E, sym=None)
            return V(unk=frozenset(["any"]))
        try:
            return self.eval_static(module, valnode, st)
        except Dead:
            return V(unk=frozenset(["any"]))

    def getattr_obj(self, o, name, node, st, base):
        ob = self.objs[o]
        fr = self.frames[-1]
        if ob.kind == "inst":
            ci = ob.cls
            kind, ths = self.concrete(ci, name)
            if kind == "prop":
                out = None
                snap = None
                for g in ths:
                    getter = g[0]
                    if getter is None:
                        continue
                    x = self.call_func(getter, V(objs=frozenset([o])), [], {}, node, st)
                    out = x if out is None else join_v(out, x)
                return out
            if kind == "method":
                return V(consts=frozenset(("bm", o, t) for t in ths))
            f = mangle(fr.cls, name)
            for h in self.hooks:
                h.on_load(self, st, ob, f, node)
            if (o, f) in st.heap:
                return self.load(st, o, f)
            flds = self.prog.fields(ci)
            if kind == "attr" and (f not in flds or not self.prog.instance_assigned(ci, name)
                                   or (ob.origin is None and ob.clone_of is None and ob.extra is None)):
                # the object kept by the class
                return self.classattr(ths[0][0], name, st)
            if f in flds:
                if ob.origin is None and ob.clone_of is None and ob.extra is None:
                    # fresh instance, field not assigned on this path
                    for h in self.hooks:
                        h.on_unset(self, st, o, f, node)
                    return self.from_types(flds[f], ("<unset>", ci.name, f), originated=False).w(sym=None, deps=E)
                return self.load(st, o, f)
            if kind == "attr":
                return self.classattr(ths[0][0], name, st)
            for sc in ci.all_subclasses():
                if f in self.prog.fields(sc):
                    return self.load(st, o, f)
            if name in ("__class__", "__dict__", "__doc__"):
                if name == "__class__":
                    return V(consts=frozenset([("k", ci)]))
                return V(unk=frozenset(["any"]), deps=self.deps_of(V(objs=frozenset([o])), st))
            if ci.has_ext_base() or "__getattr__" in ci.methods:
                return V(unk=frozenset(["any"]))
            self.attrerrs.setdefault((self.where(), f"{ci.name} object has no attribute {name}"),
                                     (self.loc(node), self.chain()))
            return None
        if ob.kind == "array":
            if name in L.VIEW_ATTRS:
                return V(objs=frozenset([o]), deps=base.deps, unit=base.unit)
            if name == "shape":
                oid = self.alloc("tuple", node, st, f"shape{o}")
                self.objs[oid].types = ("vartuple", frozenset([("int",)]))
                s = (mk("attr", self.obj_sym(base, o), "shape") if self.obj_sym(base, o) else None)
                dd = self.shape_deps(self.deps_of(V(objs=frozenset([o]), deps=base.deps), st))
                self.objs[oid].fnames.add("[]")
                st.heap[(oid, "[]")] = V(unk=frozenset(["int"]), deps=dd)
                return V(objs=frozenset([oid]), sym=s, deps=dd)
            if name in ("ndim", "size", "itemsize", "nbytes"):
                dd = self.shape_deps(self.deps_of(V(objs=frozenset([o]), deps=base.deps), st))
                return V(unk=frozenset(["int"]), sym=(mk("attr", self.obj_sym(base, o), name) if self.obj_sym(base, o) else None), deps=dd)
            return V(consts=frozenset([("om", o, name)]), unk=E, deps=base.deps, unit=base.unit,
                     sym=(mk("attr", self.obj_sym(base, o), name) if self.obj_sym(base, o) else None))
        if ob.kind in ("list", "dict", "tuple", "set", "iter"):
            return V(consts=frozenset([("om", o, name)]), deps=base.deps)
        if ob.kind == "func":
            return V(unk=frozenset(["any"]))
        # any / ext objects
        dd = self.deps_of(V(objs=frozenset([o]), deps=base.deps), st)
        if ob.origin is not None and ob.kind == "any":
            v = self.load(st, o, name)
            return v.w(consts=frozenset([("om", o, name)]))
        return V(consts=frozenset([("om", o, name)]), unk=frozenset(["any"]), deps=dd)

    def obj_sym(self, v, o):
        if v.sym is not None and len(v.objs) == 1 and not v.consts and not v.unk:
            return v.sym
        ob = self.objs[o]
        return ("p", ob.origin) if ob.origin is not None and len(v.objs) == 1 else None

    def setattr(self, base, name, v, node, st):
        fr = self.frames[-1]
        many = len(base.objs) > 1
        v = v.adddeps(self.cur_ctl | st.sticky)
        for o in sorted(base.objs):
            ob = self.objs[o]
            if ob.kind == "inst":
                k, th = ob.cls.lookup(name)
                if k == "prop":
                    setter = th[1]
                    if setter is None:
                        self.attrerrs.setdefault((self.where(), f"property {ob.cls.name}.{name} has no setter"),
                                                 (self.loc(node), self.chain()))
                        continue
                    if many:
                        s2 = st.copy()
                        try:
                            self.call_func(setter, V(objs=frozenset([o])), [v], {}, node, s2)
                            st.become(self.join(st.copy(), s2))
                        except Dead:
                            pass
                    else:
                        self.call_func(setter, V(objs=frozenset([o])), [v], {}, node, st)
                    continue
                f = mangle(fr.cls, name)
                self.store(st, o, f, v, node, weak=many)
            else:
                f = mangle(fr.cls, name)
                if ob.kind == "array":
                    self.mutate(V(objs=frozenset([o])), st, node, "setattr:" + name, self.deps_of(v, st))
                else:
                    self.store(st, o, f, v, node, weak=many)
                    self.taint(st, o, self.deps_of(v, st))
        for c in base.consts:
            if c[0] == "e":
                self.enum_writes.setdefault((c[1], name), (self.loc(node), self.chain()))
            elif c[0] == "k":
                self.global_writes.setdefault(("class", c[1].qualname, name), (self.loc(node), self.chain()))
            elif c[0] == "m":
                self.global_writes.setdefault(("module", c[1], name), (self.loc(node), self.chain()))
            elif c[0] == "x":
                self.global_writes.setdefault(("external", c[1], name), (self.loc(node), self.chain()))
                self.sinks |= self.deps_of(v, st)

    # ------------------------------------------------------------ subscripts
    def eval_index(self, sl, st):
        """-> ('int'|'slice'|'array'|'tuple'|'const', ...) description"""
        if isinstance(sl, ast.Slice):
            d = E
            parts = []
            for x in (sl.lower, sl.upper, sl.step):
                if x is not None:
                    v = self.eval(x, st)
                    d |= self.deps_of(v, st)
                    parts.append(v)
                else:
                    parts.append(None)
            return ("slice", d, parts)
        if isinstance(sl, ast.Tuple):
            parts = [self.eval_index(e, st) for e in sl.elts]
            return ("multi", parts)
        if isinstance(sl, ast.Constant) and sl.value is Ellipsis:
            return ("slice", E)
        v = self.eval(sl, st)
        return ("val", v)

    def index_kind(self, idx, st):
        """'view' | 'scalar' | 'copy' | 'elem' (unknown integer-like)"""
        if idx[0] == "slice":
            return "view"
        if idx[0] == "int":
            return "elem"
        if idx[0] == "multi":
            ks = [self.index_kind(p, st) for p in idx[1]]
            if "copy" in ks:
                return "copy"
            if "view" in ks:
                return "view"
            return "scalar" if len(ks) > 1 else "elem"
        v = idx[1]
        if v.consts and not v.objs and not v.unk:
            if v.consts == {NONE}:
                return "view"
            return "elem"
        if v.objs:
            ks = {self.kind(o) for o in v.objs}
            if ks <= {"array", "list"}:
                return "copy"
            if ks == {"tuple"}:
                return "view"
            return "copy?" if not v.weak else "elem"
        if "slice" in v.unk:
            return "view"
        return "elem"

    def index_deps(self, idx, st):
        if idx[0] == "slice":
            return idx[1]
        if idx[0] == "int":
            return E
        if idx[0] == "multi":
            d = E
            for p in idx[1]:
                d |= self.index_deps(p, st)
            return d
        return self.deps_of(idx[1], st)

    def index_sym(self, idx):
        if idx[0] == "val":
            c = idx[1].single_const()
            return c if c is not None else idx[1].sym
        if idx[0] == "multi":
            s = [self.index_sym(p) for p in idx[1]]
            return None if None in s else ("tup",) + tuple(s)
        return None

    def subscript(self, base, idx, node, st):
        r = self._subscript(base, idx, node, st)
        if self.marker is not None:
            t = self.marker.t_index(self, st, base, idx)
            if t is not None:
                r = self.mark(t, node, r, st)
        return r

    def _subscript(self, base, idx, node, st):
        if base.single_const() == NONE:
            self.none_err(node, "None is not subscriptable")
        ideps = self.index_deps(idx, st)
        ik = self.index_kind(idx, st)
        out = None
        isym = self.index_sym(idx)
        for h in self.hooks:
            h.on_index(self, st, base, idx, node, False)
        for o in sorted(base.objs):
            ob = self.objs[o]
            x = None
            if ob.kind == "array":
                d = base.deps | ideps | st.odeps.get(o, E)
                if ik == "view":
                    x = V(objs=frozenset([o]), deps=d, unit=base.unit)
                elif ik == "elem":
                    x = V(objs=frozenset([o]), unk=frozenset(["float"]), deps=d, unit=base.unit, weak=True)
                elif ik == "scalar":
                    x = V(unk=frozenset(["float"]), deps=d, unit=base.unit)
                else:
                    d = self.deps_of(V(objs=frozenset([o]), deps=d), st)
                    oid = self.alloc("array", node, st, f"fancy{o}")
                    self.taint(st, oid, d)
                    x = V(objs=frozenset([oid]), deps=d, unit=base.unit)
            elif ob.kind in ("list", "tuple", "iter"):
                if ik == "view" and idx[0] == "slice":
                    oid = self.alloc(ob.kind if ob.kind != "iter" else "list", node, st, f"sl{o}", types=ob.types)
                    self.store_raw(st, oid, "[]", self.elem_obj(o, st))
                    x = V(objs=frozenset([oid]), deps=base.deps | ideps)
                else:
                    c = idx[1].single_const() if idx[0] == "val" else None
                    x = None
                    if c is not None and c[0] == "c" and c[1] == "int":
                        i = c[2]
                        if i < 0:
                            ln = self.known_len(o, st)
                            i = ln + i if ln is not None else None
                        if i is not None:
                            f = f"[{i}]"
                            if (o, f) in st.heap:
                                x = self.load(st, o, f)
                            elif ob.kind == "tuple" and ob.types and ob.types[0] == "tuple" and \
                                    (ob.origin is not None or ob.clone_of is not None):
                                x = self.load(st, o, f)
                    if x is None:
                        x = self.elem_obj(o, st)
                    s = mk("idx", self.obj_sym(base, o), isym) if isym is not None and self.obj_sym(base, o) else None
                    if not x.objs and not x.consts:
                        x = x.w(sym=s)
                    x = x.adddeps(base.deps | ideps)
            elif ob.kind == "dict":
                c = idx[1].single_const() if idx[0] == "val" else None
                if c is not None and c[0] == "c":
                    f = f"[{c[2]}]"
                    if (o, f) in st.heap:
                        x = self.load(st, o, f)
                    elif (o, "[]") in st.heap:
                        x = self.load(st, o, "[]")
                    elif ob.origin is not None or ob.clone_of is not None or ob.extra is not None:
                        x = self.load(st, o, f)
                    else:
                        x = V(unk=frozenset(["any"]))
                elif c is not None and c[0] == "e":
                    f = f"[{c[1]}.{c[2]}]"
                    x = self.load(st, o, f) if (o, f) in st.heap else self.elem_obj(o, st)
                else:
                    x = self.elem_obj(o, st)
                x = x.adddeps(base.deps | ideps)
            elif ob.kind == "inst":
                kk, ths = self.concrete(ob.cls, "__getitem__")
                if kk == "method":
                    x = self.call_func(ths[0], V(objs=frozenset([o])),
                                       [idx[1] if idx[0] == "val" else V(unk=frozenset(["any"]), deps=ideps)],
                                       {}, node, st)
                else:
                    self.typeerrs.setdefault((self.where(), f"{ob.cls.name} object is not subscriptable"),
                                             (self.loc(node), self.chain()))
                    continue
            elif ob.kind == "any":
                if ik == "view":
                    x = V(objs=frozenset([o]), deps=base.deps | ideps)
                elif ik in ("copy", "copy?"):
                    x = V(unk=frozenset(["any"]), deps=self.deps_of(base, st) | ideps)
                elif ik == "scalar":
                    x = V(unk=frozenset(["any"]), deps=base.deps | ideps | st.odeps.get(o, E))
                else:
                    c = idx[1].single_const() if idx[0] == "val" else None
                    if c is not None and c[0] == "c" and (ob.origin or ob.clone_of is not None):
                        x = self.load(st, o, f"[{c[2]}]").w(weak=True)
                    else:
                        x = self.elem_obj(o, st).w(weak=True)
                    x = x.adddeps(base.deps | ideps)
            elif ob.kind == "ext":
                x = V(objs=frozenset([o]), unk=frozenset(["any"]), deps=self.deps_of(base, st) | ideps)
            else:
                x = V(unk=frozenset(["any"]), deps=self.deps_of(base, st) | ideps)
            if x is not None:
                out = x if out is None else join_v(out, x)
        for c in base.consts:
            if c[0] == "om" and self.kind(c[1]) == "ext":
                x = V(objs=frozenset([c[1]]), unk=frozenset(["any"]), deps=self.deps_of(base, st) | ideps)
                out = x if out is None else join_v(out, x)
            if c[0] == "k" and c[1].is_enum:
                x = V(consts=frozenset(("e", c[1].qualname, m) for m in c[1].members), deps=ideps)
                out = x if out is None else join_v(out, x)
            elif c == NONE:
                continue
            elif c[0] == "c":
                x = V(unk=frozenset(["str"] if c[1] == "str" else ["any"]), deps=base.deps | ideps)
                out = x if out is None else join_v(out, x)
            elif c[0] == "x":
                if c[1] in ("numpy.r_", "numpy.c_", "numpy.s_", "numpy.mgrid", "numpy.ogrid"):
                    oid = self.alloc("array", node, st)
                    self.taint(st, oid, ideps)
                    x = V(objs=frozenset([oid]), deps=ideps)
                else:
                    x = V(unk=frozenset(["any"]), deps=ideps)
                out = x if out is None else join_v(out, x)
        if base.unk:
            x = V(unk=frozenset(["any"]) if "str" not in base.unk else frozenset(["str"]), deps=base.deps | ideps,
                  sym=mk("idx", base.sym, isym) if base.sym and isym and not base.objs else None, unit=base.unit)
            out = x if out is None else join_v(out, x)
        if out is None:
            if base.consts and not base.objs and base.consts <= {NONE}:
                raise Dead()
            out = V(unk=frozenset(["any"]), deps=ideps | base.deps)
        return out

    def setitem(self, base, idx, v, node, st):
        if self.marker is not None:
            t = self.marker.t_index(self, st, base, idx, v)
            if t is not None:
                m = self.marker.mark(self, t, node)
                if m is not None:
                    v = v.adddeps(frozenset([m]))
        ideps = self.index_deps(idx, st)
        deps = self.deps_of(v, st) | ideps
        many = len(base.objs) > 1
        for h in self.hooks:
            h.on_index(self, st, base, idx, node, True)
            h.on_setitem(self, st, base, idx, v, node)
        for o in sorted(base.objs):
            ob = self.objs[o]
            c = idx[1].single_const() if idx[0] == "val" else None
            if ob.kind == "dict" and c is not None and c[0] == "c":
                self.store(st, o, f"[{c[2]}]", v.adddeps(ideps), node, weak=many)
            elif ob.kind == "dict" and c is not None and c[0] == "e":
                self.store(st, o, f"[{c[1]}.{c[2]}]", v.adddeps(ideps), node, weak=many)
            elif ob.kind in ("dict", "list"):
                self.mutate(V(objs=frozenset([o])), st, node, "setitem", deps)
                self.objs[o].fnames.add("[]")
                isym = idx[1].sym if idx[0] == "val" else None
                if ob.kind == "list" and not many and isym is not None and isym[0] == "idxof" \
                        and isym[1] in (self.obj_sym(base, o), ("obj", o)):
                    # x[i] = ... for every i of x: all elements are replaced
                    for f in list(ob.fnames):
                        if f.startswith("[") and f != "[]":
                            st.heap.pop((o, f), None)
                    st.heap[(o, "[]")] = v.w(ub=False)
                    self.idx_replaced.add(o)
                    continue
                cur = self.elem_obj(o, st) if any((o, f) in st.heap for f in ob.fnames if f.startswith("[")) \
                    or ob.origin is not None or ob.clone_of is not None else None
                st.heap[(o, "[]")] = (v if cur is None else join_v(cur, v)).w(ub=False)
            elif ob.kind == "inst":
                kk, ths = self.concrete(ob.cls, "__setitem__")
                if kk == "method":
                    self.call_func(ths[0], V(objs=frozenset([o])),
                                   [idx[1] if idx[0] == "val" else V(unk=frozenset(["any"])), v], {}, node, st)
            elif ob.kind == "any" and c is not None and c[0] == "c" and c[1] == "str":
                self.store(st, o, f"[{c[2]}]", v.adddeps(ideps), node, weak=many)
            else:
                self.mutate(V(objs=frozenset([o])), st, node, "setitem", deps)
        for c in base.consts:
            if c[0] == "x":
                self.global_writes.setdefault(("external", c[1], "[]"), (self.loc(node), self.chain()))
        # arrays that are only known as untracked values: remember the flow
        t = node.value if isinstance(node, ast.Subscript) else None
        if isinstance(t, ast.Name) and t.id in st.env and not base.objs:
            st.env[t.id] = st.env[t.id].adddeps(deps | self.cur_ctl | st.sticky)

    # ------------------------------------------------------------ expressions
    def eval(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported expression {type(n).__name__} at {self.loc(n)}")
        if self.keepvals:
            v = m(n, st)
            if isinstance(n, (ast.Compare, ast.BoolOp)) or isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) \
                    or isinstance(n, ast.Call) and COND_CALL.get(self.call_name(n)):
                self.lastval[id(n)] = v
                ls = self.loose(n, True, st)
                if ls is not None:
                    v = v.w(sym=("all", ls) if isinstance(n, ast.Call) and self.call_name(n) == "all" else ls)
            self.lastval[id(n)] = v
            return v
        return m(n, st)

    def e_Constant(self, n, st):
        c = ckey(n.value)
        return V(consts=frozenset([c]), sym=c)

    def e_Name(self, n, st):
        v = st.env.get(n.id)
        fr = self.frames[-1]
        if v is not None:
            return self.apply_refined(st, v) if st.refined else v
        if n.id in fr.fi.locals() and not isinstance(fr.fi, _ModFnInfo) and not fr.captured:
            self.unbound.setdefault((self.where(), n.id), (self.loc(n), self.chain()))
            raise Dead()
        cap = fr.captured
        while cap is not None:
            if n.id in cap[1]:
                return cap[1][n.id]
            cap = cap[0].captured
        if n.id in fr.fi.locals() and not isinstance(fr.fi, _ModFnInfo):
            self.unbound.setdefault((self.where(), n.id), (self.loc(n), self.chain()))
            raise Dead()
        r = self.prog.resolve(fr.module, n.id)
        if r is None:
            if n.id in L.BUILTINS:
                return V(consts=frozenset([("b", n.id)]))
            self.attrerrs.setdefault((self.where(), f"name {n.id} is not defined"), (self.loc(n), self.chain()))
            raise Dead()
        return self.sym_value(r, st)

    def sym_value(self, r, st):
        k = r[0]
        if k == "func":
            return V(consts=frozenset([("f", r[1])]))
        if k == "class":
            return V(consts=frozenset([("k", r[1])]))
        if k == "mod":
            return V(consts=frozenset([("m", r[1])]))
        if k == "ext":
            return V(consts=frozenset([("x", r[1])]))
        if k == "var":
            key = ("var", r[1].name, id(r[2]))
            v = self.globals.get(key)
            if v is None:
                name = next((a for a, s in r[1].symbols.items() if s is r or s == r), "?")
                v = self.global_val(("<module>", r[1].name, name), r[1], r[2], st)
                self.globals[key] = v
            return v
        return V(unk=frozenset(["any"]))

    def e_Attribute(self, n, st):
        base = self.eval(n.value, st)
        v = self.getattr(base, n.attr, n, st)
        return v

    def e_Subscript(self, n, st):
        base = self.eval(n.value, st)
        idx = self.eval_index(n.slice, st)
        return self.subscript(base, idx, n, st)

    def e_Slice(self, n, st):
        d = self.eval_index(n, st)[1]
        return V(unk=frozenset(["slice"]), deps=d)

    def e_Tuple(self, n, st, kind="tuple"):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            vs = []
            out = None
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    v = self.iter_elems(self.eval(e.value, st), e, st)[0]
                else:
                    v = self.eval(e, st)
                out = v if out is None else join_v(out, v)
            oid = self.alloc(kind, n, st)
            if out is not None:
                self.store_raw(st, oid, "[]", out)
            return V(objs=frozenset([oid]), deps=self.cur_ctl)
        vs = [self.eval(e, st) for e in n.elts]
        oid = self.alloc(kind, n, st)
        syms = []
        for i, v in enumerate(vs):
            self.store_raw(st, oid, f"[{i}]", v.w(ub=False) if v.ub else v)
            c = v.single_const()
            syms.append(c if c is not None else v.sym)
        sym = mk("tup", *syms) if None not in syms else None
        return V(objs=frozenset([oid]), sym=sym)

    def e_List(self, n, st):
        return self.e_Tuple(n, st, "list")

    def e_Set(self, n, st):
        return self.e_Tuple(n, st, "set")

    def e_Dict(self, n, st):
        oid = self.alloc("dict", n, st)
        nunk = 0
        for k, v in zip(n.keys, n.values):
            vv = self.eval(v, st)
            if k is None:
                for o in vv.objs:
                    for f in list(self.objs[o].fnames):
                        if (o, f) in st.heap:
                            self.store_raw(st, oid, f, st.heap[(o, f)])
                continue
            kv = self.eval(k, st)
            c = kv.single_const()
            if c is not None and c[0] == "c":
                self.store_raw(st, oid, f"[{c[2]}]", vv)
            elif c is not None and c[0] == "e":
                self.store_raw(st, oid, f"[{c[1]}.{c[2]}]", vv)
            else:
                self.store_raw(st, oid, "[]", join_v(st.heap[(oid, "[]")], vv) if nunk else vv)
                nunk += 1
        return V(objs=frozenset([oid]))

    def e_JoinedStr(self, n, st):
        d = E
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                d |= self.deps_of(self.eval(x.value, st), st)
        return V(unk=frozenset(["str"]), deps=d)

    def e_FormattedValue(self, n, st):
        return V(unk=frozenset(["str"]), deps=self.deps_of(self.eval(n.value, st), st))

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Await(self, n, st):
        return self.eval(n.value, st)

    def e_Yield(self, n, st):
        if n.value is not None:
            self.eval(n.value, st)
        return V(unk=frozenset(["any"]))

    def e_Lambda(self, n, st):
        fr = self.frames[-1]
        fi = getattr(n, "_fi", None)
        if fi is None:
            fi = FuncInfo("<lambda>", n, fr.module, fr.cls, "func", fr.fi)
            fi.qualname = fr.fi.qualname + ".<lambda>"
            n._fi = fi
        return self.closure(fi, st)

    def shape_deps(self, dd):
        if not self.shape_drop:
            return dd
        return frozenset(t for t in dd if not t.startswith("zf@") and not any(x in self.shape_drop for x in t.split(".")))

    def e_IfExp(self, n, st):
        cv = self.eval(n.test, st)
        t = self.truth(cv)
        cd = self.deps_of(cv, st)
        ctl0 = self.cur_ctl
        if self.data_only:
            cd = E
        self.cur_ctl = self.cur_ctl | cd
        outs = []
        try:
            for val, e in ((True, n.body), (False, n.orelse)):
                if val not in t:
                    continue
                s = st.copy()
                if not self.refine(n.test, val, s):
                    continue
                try:
                    v = self.eval(e, s)
                except Dead:
                    continue
                outs.append((v.adddeps(cd), s))
        finally:
            self.cur_ctl = ctl0
        if not outs:
            raise Dead()
        v, s = outs[0]
        for v2, s2 in outs[1:]:
            v = join_v(v, v2)
            s = self.join(s, s2)
        # drop refinements of the branch but keep effects
        f, r = st.facts, st.refined
        env = st.env
        st.become(s)
        if len(outs) == 1:
            pass
        return v

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        cur = st
        out = None
        deps = E
        undecided = []
        for i, e in enumerate(n.values):
            try:
                v = self.eval(e, cur)
            except Dead:
                if i == 0:
                    raise
                # short-circuit protects the remaining operands
                break
            deps |= self.deps_of(v, cur)
            t = self.truth(v)
            last = i == len(n.values) - 1
            stop = {not isand}
            if t == stop:
                if out is not None and isand and v.single_const() == ckey(False):
                    # something falsy
                    return V(consts=frozenset([ckey(False)]), deps=deps)
                res = v if out is None else join_v(out, v)
                return res.adddeps(deps)
            if last:
                out = v if out is None else join_v(out, v)
                break
            if (not isand) in t:
                # may stop here
                keep = self.filter_truth(v, not isand)
                out = keep if out is None else join_v(out, keep)
            if cur is st:
                cur = st.copy()
            if not self.refine(e, isand, cur):
                break
        if cur is not st:
            # effects of later operands
            st.heap, st.odeps = self.join(st.copy(), cur, env=False).heap, self.join(st.copy(), cur, env=False).odeps
        if out is None:
            raise Dead()
        sym = None
        parts = []
        for e in n.values:
            lc = self.lastcmp.get(id(e))
            parts.append(lc[2] if lc else None)
        if None not in parts:
            sym = mk("and" if isand else "or", *sorted(parts, key=repr))
        out = out.adddeps(deps).w(sym=sym)
        self.lastcmp[id(n)] = (None, None, sym, out)
        return out

    def filter_truth(self, v, val):
        cs = frozenset(c for c in v.consts if self.const_truth(c) in (val, None))
        if "bool" in v.unk:
            return v.w(consts=cs | frozenset([ckey(val)]), unk=v.unk - frozenset(["bool"]))
        return v.w(consts=cs)

    def const_truth(self, c):
        if c == NONE:
            return False
        if c[0] == "c":
            try:
                return bool(c[2])
            except Exception:
                return None
        return True

    def root_obj(self, ob):
        while ob.clone_of is not None:
            ob = self.objs[ob.clone_of]
        return ob

    def truth(self, v):
        t = set()
        for c in v.consts:
            x = self.const_truth(c)
            if x is None:
                return {True, False}
            t.add(x)
        for o in v.objs:
            ob = self.objs[o]
            if ob.kind in ("func", "callable"):
                t.add(True)
            elif ob.kind == "inst" and ob.cls.lookup("__len__")[0] is None and ob.cls.lookup("__bool__")[0] is None:
                t.add(True)
            elif ob.kind == "inst":
                t.add(True)
                t.add(False)
            elif self.nonempty and ob.kind in ("list", "tuple") and self.root_obj(ob).origin is not None:
                t.add(True)
            else:
                return {True, False}
        if v.unk:
            return {True, False}
        return t or {True, False}

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        r = self._unary(n, v, st)
        if self.marker is not None and not isinstance(n.op, ast.Not):
            r = self.mark(self.marker.t_op(self, st, type(n.op).__name__, v), n, r, st)
        return r

    def _unary(self, n, v, st):
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            s = negate(v.sym) if v.sym is not None else None
            if len(t) == 1:
                r = V(consts=frozenset([ckey(not next(iter(t)))]), deps=self.deps_of(v, st), sym=s)
            else:
                r = V(unk=frozenset(["bool"]), deps=self.deps_of(v, st), sym=s)
            self.lastcmp[id(n)] = (None, None, s, r)
            return r
        c = v.single_const()
        if c is not None and c[0] == "c" and isinstance(n.op, (ast.USub, ast.UAdd)) and isinstance(c[2], (int, float, complex)):
            x = -c[2] if isinstance(n.op, ast.USub) else c[2]
            return V(consts=frozenset([ckey(x)]), sym=ckey(x), deps=v.deps)
        if any(self.kind(o) in ("array", "any") for o in v.objs):
            oid = self.alloc("array", n, st)
            d = self.deps_of(v, st)
            self.taint(st, oid, d)
            return V(objs=frozenset([oid]), unk=v.unk, deps=d, unit=v.unit)
        return V(unk=frozenset(v.unk | {("any" if not v.unk else next(iter(v.unk)))}), deps=v.deps,
                 sym=mk("neg", v.sym) if v.sym else None, unit=v.unit)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop_value(n, n.op, a, b, st)

    OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
           ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod}

    def mark(self, token, n, v, st):
        """tag a value computed by a primitive operation (see rules that trace what a result is made of)"""
        m = self.marker.mark(self, token, n)
        if m is None:
            return v
        m = frozenset([m])
        for o in v.objs:
            ob = self.objs[o]
            if ob.origin is None and ob.kind != "inst":
                self.taint(st, o, m)
        return v.adddeps(m)

    def mark_objs(self, token, n, objs, st):
        m = self.marker.mark(self, token, n)
        if m is not None:
            for o in objs:
                self.taint(st, o, frozenset([m]))

    def binop_value(self, n, op, a, b, st):
        r = self._binop_value(n, op, a, b, st)
        if self.marker is not None:
            r = self.mark(self.marker.t_op(self, st, type(op).__name__, a, b), n, r, st)
        return r

    def _binop_value(self, n, op, a, b, st):
        ca, cb = a.single_const(), b.single_const()
        if (ca == NONE or cb == NONE) and not (isinstance(op, ast.Mod) and cb == NONE):
            self.none_err(n, "arithmetic with None")
        unit = None
        for h in self.hooks:
            u = h.on_binop(self, st, n, op, a, b)
            if u is not None:
                unit = u
        if ca and cb and ca[0] == "c" and cb[0] == "c" and type(op) in self.OPS:
            if isinstance(ca[2], (int, float, complex, str)) and isinstance(cb[2], (int, float, complex, str)):
                try:
                    r = self.OPS[type(op)](ca[2], cb[2])
                    if not (isinstance(r, str) and len(r) > 80):
                        return V(consts=frozenset([ckey(r)]), deps=a.deps | b.deps, sym=ckey(r), unit=unit)
                except Exception:
                    pass
        objs = a.objs | b.objs
        if objs:
            out = None
            kinds = {self.kind(o) for o in objs}
            if "inst" in kinds and kinds <= {"inst"}:
                nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}.get(type(op))
                for o in a.objs:
                    ci = self.objs[o].cls
                    if ci and nm and ci.lookup(nm)[0] == "method":
                        return self.call_func(ci.lookup(nm)[1], V(objs=frozenset([o])), [b], {}, n, st)
            d = self.deps_of(a, st) | self.deps_of(b, st)
            if kinds <= {"list"} or kinds <= {"tuple"}:
                kd = next(iter(kinds))
                oid = self.alloc(kd, n, st)
                if isinstance(op, ast.Mult):
                    ev = self.elem_join(V(objs=objs), st, n)
                    # [x] * n keeps the elements
                    self.store_raw(st, oid, "[]", ev)
                else:
                    ev = None
                    la = {o: self.known_len(o, st) for o in a.objs}
                    if len(a.objs) == 1 and len(b.objs) == 1 and not a.unk and not b.unk and None not in la.values():
                        oa, obb = next(iter(a.objs)), next(iter(b.objs))
                        lb = self.known_len(obb, st)
                        if lb is not None:
                            for i in range(la[oa]):
                                self.store_raw(st, oid, f"[{i}]", st.heap[(oa, f"[{i}]")])
                            for i in range(lb):
                                self.store_raw(st, oid, f"[{la[oa] + i}]", st.heap[(obb, f"[{i}]")])
                            return V(objs=frozenset([oid]), deps=a.deps | b.deps)
                    for x in (a, b):
                        if x.objs:
                            e = self.elem_join(V(objs=x.objs), st, n)
                            ev = e if ev is None else join_v(ev, e)
                    self.store_raw(st, oid, "[]", ev)
                self.taint(st, oid, d)
                return V(objs=frozenset([oid]), deps=d)
            oid = self.alloc("array", n, st)
            self.taint(st, oid, d)
            return V(objs=frozenset([oid]), unk=(a.unk & b.unk), deps=d, unit=unit)
        deps = a.deps | b.deps
        types = set(a.unk | b.unk)
        for x in (a, b):
            for c in x.consts:
                if c[0] == "c":
                    types.add(c[1])
                elif c != NONE:
                    types.add("any")
        if types <= {"int", "bool"} and not isinstance(op, ast.Div):
            ty = "int"
        elif types <= {"int", "float", "bool"}:
            ty = "float"
        elif types <= {"str"}:
            ty = "str"
        elif isinstance(op, ast.Mod) and ("str" in a.unk or any(c[0] == "c" and c[1] == "str" for c in a.consts)):
            ty = "str"
        else:
            ty = "any"
        sa = ca if ca is not None else a.sym
        sb = cb if cb is not None else b.sym
        sym = mk("bin", type(op).__name__, sa, sb) if sa and sb else None
        return V(unk=frozenset([ty]), deps=deps, sym=sym, unit=unit)

    CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
           ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        res = None
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(rn, st)
            r = self.compare(n, self.CMP[type(op)], left, right, st)
            self.lastcmp[("c", id(n), i)] = (left, right, r.sym, r)
            if res is None:
                res = r
            else:
                ta, tb = self.truth(res), self.truth(r)
                if ta == {False} or tb == {False}:
                    res = V(consts=frozenset([ckey(False)]), deps=res.deps | r.deps)
                elif ta == {True} and tb == {True}:
                    res = V(consts=frozenset([ckey(True)]), deps=res.deps | r.deps)
                else:
                    res = V(unk=frozenset(["bool"]), deps=res.deps | r.deps)
            left = right
        if len(n.ops) == 1:
            self.lastcmp[id(n)] = self.lastcmp[("c", id(n), 0)]
        else:
            self.lastcmp[id(n)] = (None, None, None, res)
        return res

    def possible_consts(self, v, st):
        """if v is a container of constants only -> frozenset, else None"""
        if len(v.objs) != 1 or v.consts or v.unk:
            if len(v.consts) == 1 and not v.objs and not v.unk:
                c = next(iter(v.consts))
                if c[0] == "k" and c[1].is_enum:
                    return frozenset(("e", c[1].qualname, m) for m in c[1].members)
            return None
        o = next(iter(v.objs))
        ln = self.known_len(o, st)
        ob = self.objs[o]
        if ob.kind not in ("tuple", "list", "set"):
            return None
        if ob.kind == "set":
            ln = len([f for f in ob.fnames if f[1:-1].isdigit()])
        if ln is None:
            return None
        out = set()
        for i in range(ln):
            x = st.heap.get((o, f"[{i}]"))
            if x is None or x.objs or x.unk or len(x.consts) != 1:
                return None
            out |= x.consts
        return frozenset(out)

    def compare(self, n, op, a, b, st):
        r = self._compare(n, op, a, b, st)
        if self.marker is not None:
            t = self.marker.t_cmp(self, st, op, a, b)
            if t is not None:
                r = self.mark(t, n, r, st)
        return r

    def _compare(self, n, op, a, b, st):
        deps = self.deps_of(a, st) | self.deps_of(b, st)
        ca, cb = a.single_const(), b.single_const()
        if op in ("<", "<=", ">", ">=") and NONE in (ca, cb):
            self.none_err(n, "ordering comparison with None")
        sa = ca if ca is not None and ca[0] in ("c", "n", "e") else a.sym
        sb = cb if cb is not None and cb[0] in ("c", "n", "e") else b.sym
        val = None
        for h in self.hooks:
            h.on_compare(self, st, n, op, a, b)
            known = h.decide(self, st, n, op, a, b)
            if known is not None:
                return V(consts=frozenset([ckey(bool(known))]), deps=deps)
        # an attribute of an external object: nothing known about its value
        if any(c[0] == "om" for c in a.consts):
            a = V(unk=frozenset(["any"]), sym=a.sym, deps=a.deps)
            ca = None
            sa = a.sym
        if any(c[0] == "om" for c in b.consts):
            b = V(unk=frozenset(["any"]), sym=b.sym, deps=b.deps)
            cb = None
            sb = b.sym
        if op in ("in", "notin"):
            pc = self.possible_consts(b, st)
            sym = None
            if pc is not None:
                if a.sym is not None and not a.objs:
                    sym = ("cmp", op, a.sym, ("set",) + tuple(sorted(pc, key=repr)))
                if not a.objs and not a.unk and a.consts:
                    ins = {c in pc or self._eqconst(c, pc) for c in a.consts}
                    if ins == {True}:
                        val = True
                    elif ins == {False}:
                        val = False
            elif ca is not None and cb is not None and ca[:2] == cb[:2] == ("c", "str"):
                val = ca[2] in cb[2]
            elif a.sym is not None and b.sym is not None:
                sym = ("cmp", op, a.sym, b.sym)
            if val is not None and op == "notin":
                val = not val
        else:
            sym = canon_cmp(op, sa, sb) if sa and sb else None
            arrayish = any(self.kind(o) in ("array", "any") for o in a.objs | b.objs)
            if op in ("==", "is", "!=", "isnot"):
                eq = None
                if not a.objs and not b.objs and not a.unk and not b.unk:
                    if ca is not None and cb is not None:
                        eq = (ca == cb) or self._numeq(ca, cb)
                    elif not (a.consts & b.consts) and not any(self._numeq(x, y) for x in a.consts for y in b.consts):
                        eq = False
                elif NONE in (ca, cb):
                    other = b if ca == NONE else a
                    if NONE not in other.consts and not self.maybe_none(other):
                        eq = False
                elif (ca is not None and ca[0] == "e") or (cb is not None and cb[0] == "e"):
                    other = b if (ca is not None and ca[0] == "e") else a
                    en = ca if (ca is not None and ca[0] == "e") else cb
                    if en not in other.consts and not ("any" in other.unk) and not any(
                            self.kind(o) in ("any",) for o in other.objs):
                        eq = False
                if eq is None and sa is not None and sa == sb and sa[0] == "p":
                    eq = None
                if eq is not None:
                    val = eq if op in ("==", "is") else not eq
                if (op in ("==", "!=")) and arrayish and val is None:
                    oid = self.alloc("array", n, st)
                    self.taint(st, oid, deps)
                    return V(objs=frozenset([oid]), unk=frozenset(["bool"]), deps=deps, sym=sym)
            elif ca is not None and cb is not None and ca[0] == "c" and cb[0] == "c":
                try:
                    f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op]
                    val = bool(f(ca[2], cb[2]))
                except Exception:
                    val = None
            elif a.consts and b.consts and not a.unk and not b.unk and not a.objs and not b.objs:
                f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op]
                try:
                    vals = {bool(f(x[2], y[2])) for x in a.consts for y in b.consts}
                    if len(vals) == 1:
                        val = vals.pop()
                except Exception:
                    pass
            elif arrayish:
                oid = self.alloc("array", n, st)
                self.taint(st, oid, deps)
                return V(objs=frozenset([oid]), unk=frozenset(["bool"]), deps=deps, sym=sym)
        if val is None and sym is not None:
            if sym in st.facts:
                val = True
            elif negate(sym) in st.facts:
                val = False
        if val is None and self.nonempty:
            val = self.nonempty_cmp(op, sa, sb)
        if val is not None:
            return V(consts=frozenset([ckey(val)]), deps=deps, sym=sym)
        return V(unk=frozenset(["bool"]), deps=deps, sym=sym)

    def nonempty_cmp(self, op, sa, sb):
        """comparison of the length of a caller's list, assumed not empty, with 0 or 1"""
        if not sa or not sb:
            return None
        if sa[0] == "c":
            sa, sb = sb, sa
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if sb[0] != "c" or sb[2] not in (0, 1) or not (sa[0] == "call" and sa[1] == "len" and sa[2][:1] == ("p",)):
            return None
        if sb[2] == 0:
            return {"==": False, "is": False, "!=": True, "isnot": True, ">": True, "<=": False, ">=": True,
                    "<": False}.get(op)
        return {">=": True, "<": False}.get(op)

    def _numeq(self, x, y):
        return x[0] == "c" and y[0] == "c" and x[1] in ("int", "float", "bool") and y[1] in ("int", "float", "bool") \
            and x[2] == y[2]

    def _eqconst(self, c, pc):
        return any(self._numeq(c, y) for y in pc)

    def maybe_none(self, v):
        if "any" in v.unk or "none" in v.unk:
            return True
        return any(self.kind(o) == "any" and not self.objs[o].site for o in v.objs)

    # --------------------------------------------------------- comprehension
    def comp(self, n, st, elts):
        saved = {}
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        for k in names:
            saved[k] = st.env.get(k)
        ctl0 = self.cur_ctl
        deps = E
        nonempty = True
        filt = False
        facts0 = st.facts
        ref0 = st.refined
        try:
            for g in n.generators:
                it = self.eval(g.iter, st)
                ev, exact = self.iter_elems(it, g, st)
                nonempty = nonempty and exact
                deps |= self.deps_of(it, st) if g.ifs else it.deps
                if not self.data_only:
                    self.cur_ctl = self.cur_ctl | it.deps
                self.assign(g.target, ev, st, n)
                for c in g.ifs:
                    filt = True
                    cv = self.eval(c, st)
                    deps |= self.deps_of(cv, st)
                    if not self.refine(c, True, st):
                        raise Dead()
            vs = [self.eval(e, st) for e in elts]
        finally:
            self.cur_ctl = ctl0
            st.facts = facts0
            st.refined = ref0
            for k, v in saved.items():
                if v is None:
                    st.env.pop(k, None)
                else:
                    st.env[k] = v
        return vs, deps, nonempty and not filt

    def e_ListComp(self, n, st, kind="list"):
        try:
            vs, deps, ne = self.comp(n, st, [n.elt])
        except Dead:
            oid = self.alloc(kind, n, st)
            return V(objs=frozenset([oid]))
        oid = self.alloc(kind, n, st)
        ev = vs[0]
        if ev.sym is not None:
            pass
        self.store_raw(st, oid, "[]", ev.adddeps(deps))
        lc = self.lastcmp.get(id(n.elt))
        self.lastcmp[("comp", id(n))] = lc
        s = mk("each", lc[2] if lc else ev.sym) if (lc and lc[2]) or ev.sym else None
        if kind == "iter" and ne:
            self.objs[oid].nonempty = True
        return V(objs=frozenset([oid]), deps=deps, sym=s)

    def e_GeneratorExp(self, n, st):
        return self.e_ListComp(n, st, "iter")

    def e_SetComp(self, n, st):
        return self.e_ListComp(n, st, "set")

    def e_DictComp(self, n, st):
        try:
            vs, deps, _ = self.comp(n, st, [n.key, n.value])
        except Dead:
            vs = [None, V(unk=frozenset(["any"]))]
            deps = E
        oid = self.alloc("dict", n, st)
        self.store_raw(st, oid, "[]", vs[1].adddeps(deps))
        return V(objs=frozenset([oid]), deps=deps)

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and n.func.id not in st.env:
            fr = self.frames[-1]
            selfp = fr.fi.params[0].name if fr.fi.params else None
            sv = st.env.get(selfp)
            if sv is not None:
                return V(consts=frozenset(("super", o, fr.cls) for o in sv.objs))
            return V(unk=frozenset(["any"]))
        f = self.eval(n.func, st)
        args, star = [], False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                known = None
                if len(v.objs) == 1 and not v.unk:
                    o = next(iter(v.objs))
                    ln = self.known_len(o, st)
                    if ln is not None:
                        known = [self.load(st, o, f"[{i}]") for i in range(ln)]
                if known is not None:
                    args.extend(known)
                else:
                    star = self.deps_of(v, st) or frozenset(["?"])
            else:
                args.append(self.eval(a, st))
        kwargs, dstar = {}, None
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                dstar = v if dstar is None else join_v(dstar, v)
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, n, st, star, dstar)

    def call(self, f, args, kwargs, n, st, star=False, dstar=None):
        out = None
        targets = []
        for c in sorted(f.consts, key=repr):
            if c == NONE:
                continue
            targets.append(("const", c))
        for o in sorted(f.objs):
            targets.append(("obj", o))
        multi = len(targets) > 1
        states = []
        alldead = bool(targets)
        for kind, t in targets:
            s = st.copy() if multi else st
            try:
                if kind == "const":
                    v = self.call_const(t, args, kwargs, n, s, star, dstar, f)
                else:
                    v = self.call_obj(t, args, kwargs, n, s, star, dstar)
            except Dead:
                continue
            alldead = False
            out = v if out is None else join_v(out, v)
            states.append(s)
        if multi and states:
            r = states[0]
            for s in states[1:]:
                r = self.join(r, s)
            st.become(r)
        if f.unk and not targets:
            d = f.deps
            for a in args:
                d |= self.deps_of(a, st)
            for a in kwargs.values():
                d |= self.deps_of(a, st)
            x = V(unk=frozenset(["any"]), deps=d)
            out = x if out is None else join_v(out, x)
            alldead = False
            self.call_closures(args, kwargs, n, st)
        if alldead:
            raise Dead()
        if out is None:
            if f.consts == {NONE}:
                self.typeerrs.setdefault((self.where(), "calling None"), (self.loc(n), self.chain()))
            raise Dead()
        fd = f.deps
        return out.adddeps(fd) if fd and not out.deps >= fd and any(c[0] in ("f", "k", "em", "e", "bm") for c in f.consts) else out

    def call_closures(self, args, kwargs, n, st):
        for a in list(args) + list(kwargs.values()):
            for o in a.objs:
                if self.kind(o) == "func":
                    fi = self.objs[o].types[0]
                    try:
                        np_ = [V(unk=frozenset(["any"])) for p in fi.params if p.kind == "pos" and p.default is None]
                        self.call_obj(o, np_, {}, n, st, False, None)
                    except Dead:
                        pass

    def call_obj(self, o, args, kwargs, n, st, star, dstar):
        ob = self.objs[o]
        if ob.kind == "func":
            fi, fr, env = ob.types
            return self.call_func(fi, None, args, kwargs, n, st, captured=(fr, env), star=star, dstar=dstar)
        if ob.kind == "inst":
            k, ths = self.concrete(ob.cls, "__call__")
            if k == "method":
                return self.call_func(ths[0], V(objs=frozenset([o])), args, kwargs, n, st, star=star, dstar=dstar)
            self.typeerrs.setdefault((self.where(), f"{ob.cls.name} object is not callable"),
                                     (self.loc(n), self.chain()))
            raise Dead()
        d = self.argdeps(args, kwargs, dstar, st, star) | self.deps_of(V(objs=frozenset([o])), st)
        oid = self.alloc("any" if ob.kind in ("any", "callable") else "ext", n, st, "callres")
        self.objs[oid].extra = None
        self.taint(st, oid, d)
        if ob.kind in ("ext",):
            self.taint(st, o, d)
        return V(objs=frozenset([oid]), deps=d)

    def argdeps(self, args, kwargs, dstar, st, star=False):
        d = E
        for a in args:
            d |= self.deps_of(a, st)
        for a in kwargs.values():
            d |= self.deps_of(a, st)
        if dstar is not None:
            d |= self.deps_of(dstar, st)
        if star and isinstance(star, frozenset):
            d |= star
        return d

    def call_const(self, c, args, kwargs, n, st, star, dstar, f):
        k = c[0]
        if k == "f":
            return self.call_func(c[1], None, args, kwargs, n, st, star=star, dstar=dstar)
        if k == "bm":
            fi = c[2]
            if fi.kind == "static":
                return self.call_func(fi, None, args, kwargs, n, st, star=star, dstar=dstar)
            if fi.kind == "classmethod":
                return self.call_func(fi, V(consts=frozenset([("k", self.objs[c[1]].cls)])), args, kwargs, n, st,
                                      star=star, dstar=dstar)
            return self.call_func(fi, V(objs=frozenset([c[1]])), args, kwargs, n, st, star=star, dstar=dstar)
        if k == "cm":
            fi = c[2]
            if fi.kind == "classmethod":
                return self.call_func(fi, V(consts=frozenset([("k", c[1])])), args, kwargs, n, st, star=star, dstar=dstar)
            return self.call_func(fi, None, args, kwargs, n, st, star=star, dstar=dstar)
        if k == "em":
            return self.call_func(c[2], V(consts=frozenset([c[1]]), deps=f.deps), args, kwargs, n, st, star=star,
                                  dstar=dstar)
        if k == "e":
            ci = self.prog.classes.get(c[1]) if hasattr(self.prog, "classes") else None
            if ci is not None:
                kk, th = ci.lookup("__call__")
                if kk == "method":
                    return self.call_func(th, V(consts=frozenset([c]), deps=f.deps), args, kwargs, n, st, star=star,
                                          dstar=dstar)
        if k == "k":
            ci = c[1]
            if ci.is_enum:
                d = self.argdeps(args, kwargs, dstar, st)
                return V(consts=frozenset(("e", ci.qualname, m) for m in ci.members), deps=d)
            oid = self.alloc("inst", n, st, "new" + ci.name, ci)
            sv = V(objs=frozenset([oid]))
            kk, th = ci.lookup("__init__")
            if kk == "method":
                self.call_func(th, sv, args, kwargs, n, st, star=star, dstar=dstar)
            elif ci.has_ext_base():
                self.taint(st, oid, self.argdeps(args, kwargs, dstar, st))
            elif args or kwargs:
                self.err_badcall(n, None, f"{ci.name}() takes no arguments")
            return sv
        if k in ("b", "x", "om"):
            t = self.marker.t_call(self, st, c, args, kwargs, f) if self.marker is not None else None
            if k == "b":
                r = self.call_builtin(c[1], args, kwargs, n, st, dstar, star)
                if c[1] == "len" and args:
                    for h in self.hooks:
                        x = h.on_len(self, st, args[0], n, r)
                        if x is not None:
                            r = x
            elif k == "x":
                r = self.call_ext(c[1], args, kwargs, n, st, dstar, star)
                for h in self.hooks:
                    x = h.on_ext_result(self, st, c[1], args, kwargs, n, r)
                    if x is not None:
                        r = x
            else:
                r = self.call_objmethod(c[1], c[2], args, kwargs, n, st, f, dstar, star)
            if t is not None:
                r = self.mark(t, n, r, st)
                if k == "om":
                    if self.objs[c[1]].kind in ("ext", "any", "list", "set", "dict"):
                        self.mark_objs(t, n, [c[1]], st)
                    if self.objs[c[1]].kind == "ext":
                        self.sinks |= frozenset([self.marker.mark(self, t, n)])
                elif k == "x" and not c[1].startswith(("numpy.", "scipy.")):
                    self.sinks |= frozenset([self.marker.mark(self, t, n)])
            return r
        if k == "sm":
            return self.call_strmethod(c[1], c[2], args, st)
        if k == "super":
            return V(unk=frozenset(["any"]))
        if k == "c":
            self.typeerrs.setdefault((self.where(), f"calling constant {c[2]!r}"), (self.loc(n), self.chain()))
            raise Dead()
        return V(unk=frozenset(["any"]), deps=self.argdeps(args, kwargs, dstar, st))

    def call_strmethod(self, s, name, args, st):
        d = self.argdeps(args, {}, None, st)
        if name in ("lower", "upper", "strip", "title", "capitalize") and not args:
            return V(consts=frozenset([ckey(getattr(s, name)())]))
        if name in ("endswith", "startswith") and args:
            c = args[0].single_const()
            if c and c[0] == "c" and isinstance(c[2], str):
                return V(consts=frozenset([ckey(getattr(s, name)(c[2]))]), deps=d)
            return V(unk=frozenset(["bool"]), deps=d)
        return V(unk=frozenset(["any"]), deps=d)

    # -- methods of arrays / lists / dicts / unknown objects
    def call_objmethod(self, o, name, args, kwargs, n, st, f, dstar, star=False):
        ob = self.objs[o]
        ov = V(objs=frozenset([o]), deps=f.deps, unit=f.unit)
        d = self.argdeps(args, kwargs, dstar, st, star)
        k = ob.kind
        if k == "array" or (k == "any" and ob.origin is not None) or k == "any":
            if name == "copy":
                return self.clone(ov, n, st, shallow=False)
            if name in L.MUT_METHODS_ARR and k == "array":
                self.mutate(ov, st, n, "." + name + "()", d)
                return V(consts=frozenset([NONE]))
            if name in L.VIEW_METHODS:
                return V(objs=frozenset([o]), deps=f.deps | d, unit=f.unit)
            if name == "astype":
                cp = kwargs.get("copy")
                if cp is not None and cp.single_const() == ckey(False):
                    return V(objs=frozenset([o]), deps=f.deps | d)
                r = self.clone(ov, n, st, shallow=False)
                return r
            if k == "any" and name in L.MUT_METHODS_ANY:
                self.mutate(ov, st, n, "." + name + "()", d)
                return V(unk=frozenset(["any"]), deps=d)
            if k == "array":
                out = kwargs.get("out")
                if out is not None:
                    self.mutate(out, st, n, "out=", d | self.deps_of(ov, st))
                    return out
                dd = self.deps_of(ov, st) | d
                oid = self.alloc("array", n, st, f"am{o}{name}")
                self.taint(st, oid, dd)
                sym = None
                if name in ("all", "any") and not args and not kwargs:
                    sym = None
                unk = frozenset(["float"]) if name in ("max", "min", "sum", "mean", "all", "any", "item", "argmax",
                                                       "argmin", "std", "var", "prod") else E
                if unk and not kwargs and not args:
                    return V(unk=frozenset(["bool"] if name in ("all", "any") else
                                           ["int"] if name.startswith("arg") else ["float"]), deps=dd,
                             sym=mk("call", "numpy." + name, f.sym[1]) if f.sym and f.sym[0] == "attr" and f.sym[1] else None,
                             unit=f.unit)
                return V(objs=frozenset([oid]), unk=unk, deps=dd, unit=f.unit if name in ("max", "min", "mean", "sum") else None)
        if k == "list":
            if name in ("append", "insert"):
                v = args[-1] if args else V(unk=frozenset(["any"]))
                self.mutate(ov, st, n, "." + name + "()", d)
                self._add_elem(o, v, st)
                return V(consts=frozenset([NONE]))
            if name == "extend":
                self.mutate(ov, st, n, ".extend()", d)
                if args:
                    self._add_elem(o, self.iter_elems(args[0], n, st)[0], st)
                return V(consts=frozenset([NONE]))
            if name == "pop":
                e = self.elem_obj(o, st)
                self.mutate(ov, st, n, ".pop()", d)
                return e
            if name in L.MUT_METHODS_LIST:
                self.mutate(ov, st, n, "." + name + "()", d)
                return V(consts=frozenset([NONE]))
            if name == "copy":
                return self.clone(ov, n, st, shallow=True)
            return V(unk=frozenset(["int"]), deps=self.deps_of(ov, st) | d)
        if k == "dict":
            if name == "copy":
                return self.clone(ov, n, st, shallow=True)
            if name == "get":
                c = args[0].single_const() if args else None
                x = None
                if c is not None and c[0] == "c":
                    fl = f"[{c[2]}]"
                    if (o, fl) in st.heap or ob.origin is not None or ob.clone_of is not None:
                        x = self.load(st, o, fl)
                if x is None:
                    x = self.elem_obj(o, st)
                x = join_v(x, args[1] if len(args) > 1 else V(consts=frozenset([NONE])))
                return x.adddeps(d)
            if name == "update":
                self.mutate(ov, st, n, ".update()", d)
                for a in args:
                    for ao in a.objs:
                        for fl in list(self.objs[ao].fnames):
                            if (ao, fl) in st.heap and fl.startswith("["):
                                ob.fnames.add(fl)
                                st.heap[(o, fl)] = st.heap[(ao, fl)]
                for kk, v in kwargs.items():
                    self.store(st, o, f"[{kk}]", v, n)
                return V(consts=frozenset([NONE]))
            if name in ("pop", "setdefault", "popitem"):
                e = self.elem_obj(o, st)
                self.mutate(ov, st, n, "." + name + "()", d)
                return e
            if name == "clear":
                self.mutate(ov, st, n, ".clear()", d)
                return V(consts=frozenset([NONE]))
            if name in ("values", "items", "keys"):
                oid = self.alloc("iter", n, st, name)
                e = self.elem_obj(o, st)
                if name == "items":
                    t = self.alloc("tuple", n, st, "item")
                    self.store_raw(st, t, "[0]", V(unk=frozenset(["any"]), deps=ov.deps))
                    self.store_raw(st, t, "[1]", e)
                    e = V(objs=frozenset([t]))
                elif name == "keys":
                    e = V(unk=frozenset(["any"]), deps=ov.deps)
                self.store_raw(st, oid, "[]", e)
                return V(objs=frozenset([oid]))
            return V(unk=frozenset(["any"]), deps=d)
        if k == "set":
            if name in L.MUT_METHODS_SET:
                self.mutate(ov, st, n, "." + name + "()", d)
                if args:
                    self._add_elem(o, args[0], st)
                return V(consts=frozenset([NONE]))
            return V(objs=frozenset([o]), deps=d)
        if k in ("tuple", "iter"):
            return V(unk=frozenset(["int"]), deps=self.deps_of(ov, st) | d)
        # external object: the call may use and change it
        self.taint(st, o, d | self.cur_ctl | st.sticky)
        self.call_closures(args, kwargs, n, st)
        dd = self.deps_of(ov, st) | d
        oid = self.alloc("ext" if k == "ext" else "any", n, st, f"xm{name}")
        self.objs[oid].extra = None
        self.taint(st, oid, dd)
        if k == "ext":
            self.sinks |= dd | self.cur_ctl | st.sticky
        return V(objs=frozenset([oid]), deps=dd)

    def _add_elem(self, o, v, st):
        ob = self.objs[o]
        v = v.adddeps(self.cur_ctl | st.sticky)
        have = any((o, f) in st.heap for f in ob.fnames if f.startswith("["))
        ob.fnames.add("[]")
        if (o, "[]") in st.heap:
            st.heap[(o, "[]")] = join_v(st.heap[(o, "[]")], v)
        elif ob.origin is not None or ob.clone_of is not None:
            st.heap[(o, "[]")] = join_v(self.load(st, o, "[]"), v)
        else:
            st.heap[(o, "[]")] = v.w(ub=False)

    def clone(self, v, node, st, shallow=False, memo=None, depth=0):
        """copy of a value; deep unless shallow"""
        if memo is None:
            memo = {}
        objs = set()
        for o in v.objs:
            ob = self.objs[o]
            if ob.kind in ("func", "callable", "ext") or depth > 8:
                objs.add(o)
                continue
            if o in memo:
                objs.add(memo[o])
                continue
            oid = self.alloc(ob.kind, node, st, f"cl{o}", ob.cls, ob.types, clone_of=o)
            nb = self.objs[oid]
            nb.extra = ob.extra
            memo[o] = oid
            for h in self.hooks:
                h.on_clone(self, st, ob, nb)
            d = st.odeps.get(o)
            if d:
                self.taint(st, oid, d)
            for f in sorted(ob.fnames):
                x = st.heap.get((o, f))
                if x is None or f == "#mut":
                    continue
                if not shallow:
                    x = self.clone(x, node, st, False, memo, depth + 1)
                self.store_raw(st, oid, f, x)
            if shallow and ob.kind in ("list", "dict") and (ob.origin is not None or ob.clone_of is not None):
                if "[]" not in ob.fnames or (o, "[]") not in st.heap:
                    if ob.kind == "list":
                        self.store_raw(st, oid, "[]", self.load(st, o, "[]"))
            objs.add(oid)
        return v.w(objs=frozenset(objs), ub=False, weak=False)

    # -- builtins
    def call_builtin(self, name, args, kwargs, n, st, dstar, star):
        d = self.argdeps(args, kwargs, dstar, st, star)
        a0 = args[0] if args else None
        if name in ("open", "hash", "id", "input", "exec", "eval", "globals"):
            self.extcalls.setdefault("builtins." + name, set()).add((self.where(), self.loc(n)))
        if name == "isinstance":
            return self.isinstance_(n, args, st)
        if name == "len":
            s = self.single_sym(a0) if a0 is not None else None
            if a0 is not None and len(a0.objs) == 1 and not a0.unk:
                o = next(iter(a0.objs))
                kl = self.known_len(o, st)
                if kl is not None:
                    return V(consts=frozenset([ckey(kl)]), deps=d)
                ob = self.objs[o]
                if ob.kind == "inst" and ob.cls.lookup("__len__")[0] == "method":
                    return self.call_func(ob.cls.lookup("__len__")[1], a0, [], {}, n, st)
            if s is None and a0 is not None and len(a0.objs) == 1:
                s = ("obj", next(iter(a0.objs)))
            return V(unk=frozenset(["int"]), deps=d, sym=mk("call", "len", s) if s else None)
        if name == "range":
            oid = self.alloc("iter", n, st)
            isym = None
            if len(args) == 1 and a0.sym is not None and a0.sym[:2] == ("call", "len"):
                isym = ("idxof", a0.sym[2])
            self.store_raw(st, oid, "[]", V(unk=frozenset(["int"]), deps=d, sym=isym))
            cs = [a.single_const() for a in args]
            if all(c is not None and c[0] == "c" for c in cs):
                try:
                    self.objs[oid].nonempty = len(range(*[c[2] for c in cs])) > 0
                except Exception:
                    pass
            else:
                self.objs[oid].nonempty = False
            return V(objs=frozenset([oid]), deps=d)
        if name in ("enumerate", "zip"):
            oid = self.alloc("iter", n, st)
            t = self.alloc("tuple", n, st, "t")
            exact = True
            if name == "enumerate":
                ev, exact = self.iter_elems(a0, n, st)
                s0 = self.single_sym(a0) or (("obj", next(iter(a0.objs))) if len(a0.objs) == 1 else None)
                self.store_raw(st, t, "[0]", V(unk=frozenset(["int"]), deps=E,
                                               sym=("idxof", s0) if s0 is not None and len(args) == 1 else None))
                self.store_raw(st, t, "[1]", ev)
            else:
                for i, a in enumerate(args):
                    ev, ex = self.iter_elems(a, n, st)
                    exact = exact and ex
                    self.store_raw(st, t, f"[{i}]", ev)
            self.objs[oid].nonempty = exact
            self.store_raw(st, oid, "[]", V(objs=frozenset([t])))
            return V(objs=frozenset([oid]))
        if name in ("list", "tuple", "sorted", "reversed", "set", "frozenset", "iter"):
            kd = {"sorted": "list", "reversed": "iter", "frozenset": "set", "iter": "iter"}.get(name, name)
            oid = self.alloc(kd, n, st)
            if a0 is not None:
                ev = self.iter_elems(a0, n, st)[0]
                self.store_raw(st, oid, "[]", ev)
                if len(a0.objs) == 1 and not a0.unk and kd != "set" and name in ("list", "tuple"):
                    o = next(iter(a0.objs))
                    kl = self.known_len(o, st)
                    if kl is not None:
                        pass
            return V(objs=frozenset([oid]), deps=a0.deps if a0 is not None else E)
        if name == "dict":
            if a0 is not None and a0.objs and all(self.kind(o) == "dict" for o in a0.objs):
                r = self.clone(a0, n, st, shallow=True)
            else:
                oid = self.alloc("dict", n, st)
                r = V(objs=frozenset([oid]))
                if a0 is not None:
                    self.taint(st, oid, d)
            for o in r.objs:
                for k, v in kwargs.items():
                    self.store_raw(st, o, f"[{k}]", v)
            return r
        if name == "next":
            return self.iter_elems(a0, n, st)[0]
        if name in ("int", "float", "bool", "str", "complex", "abs", "round", "repr", "ord", "chr", "hash", "id"):
            if name == "str" and a0 is not None and a0.single_const() and a0.single_const()[0] == "c":
                return V(consts=frozenset([ckey(str(a0.single_const()[2]))]), deps=d)
            if name == "str" and a0 is not None and not a0.objs and not a0.unk and a0.consts \
                    and all(c[0] == "e" for c in a0.consts):
                ms = {c: self.prog.classes[c[1]].lookup("__str__") for c in a0.consts if c[1] in self.prog.classes}
                if len(ms) == len(a0.consts) and all(k == "method" for k, _ in ms.values()):
                    r = None
                    for c, (_, th) in sorted(ms.items(), key=repr):
                        x = self.call_func(th, V(consts=frozenset([c]), deps=a0.deps), [], {}, n, st)
                        r = x if r is None or x is None else join_v(r, x)
                    if r is not None:
                        return r
            if name in ("int", "float") and a0 is not None:
                c = a0.single_const()
                if c and c[0] == "c" and isinstance(c[2], (int, float)):
                    try:
                        return V(consts=frozenset([ckey(int(c[2]) if name == "int" else float(c[2]))]), deps=d)
                    except (ValueError, OverflowError):
                        pass
            if name == "abs" and a0 is not None and a0.objs:
                oid = self.alloc("array", n, st)
                self.taint(st, oid, d)
                return V(objs=frozenset([oid]), deps=d, unit=a0.unit)
            ty = {"abs": "float", "round": "int", "repr": "str", "ord": "int", "chr": "str", "hash": "int",
                  "id": "int"}.get(name, name)
            s = self.single_sym(a0) if a0 is not None else None
            return V(unk=frozenset([ty]), deps=d, sym=mk("call", name, s) if s else None,
                     unit=a0.unit if a0 is not None and name in ("int", "float", "abs", "round") else None)
        if name in ("min", "max", "sum", "any", "all"):
            if name in ("any", "all") and a0 is not None:
                s = a0.sym
                el = None
                for o in a0.objs:
                    if self.kind(o) in ("iter", "list"):
                        el = self.elem_obj(o, st)
                sym = mk("call", name, s) if s else None
                return V(unk=frozenset(["bool"]), deps=d, sym=sym)
            u = None
            us = {a.unit for a in args}
            if len(us) == 1:
                u = us.pop()
            objs = E
            if name in ("min", "max") and len(args) > 1:
                cs = [a.single_const() for a in args]
                if all(c is not None and c[0] == "c" for c in cs):
                    try:
                        return V(consts=frozenset([ckey((min if name == "min" else max)(c[2] for c in cs))]), deps=d)
                    except TypeError:
                        pass
                s = [self.single_sym(a) for a in args]
                return V(unk=frozenset(["float"]), deps=d, unit=u,
                         sym=mk("call", name, *sorted(s, key=repr)) if None not in s else None)
            s = self.single_sym(a0) if a0 is not None else None
            return V(unk=frozenset(["float"]), deps=d, unit=u, sym=mk("call", name, s) if s else None)
        if name == "print":
            self.printed |= d | self.cur_ctl
            return V(consts=frozenset([NONE]))
        if name == "open":
            self.sinks |= d | self.cur_ctl
            oid = self.alloc("ext", n, st)
            self.taint(st, oid, d)
            return V(objs=frozenset([oid]), deps=d)
        if name == "hasattr":
            return self.hasattr_(args, st)
        if name == "getattr" and len(args) >= 2:
            c = args[1].single_const()
            if c and c[0] == "c" and isinstance(c[2], str):
                v = self.getattr(a0, c[2], n, st)
                return v
            return V(unk=frozenset(["any"]), deps=d)
        if name == "setattr" and len(args) == 3:
            c = args[1].single_const()
            if c and c[0] == "c" and isinstance(c[2], str):
                self.setattr(a0, c[2], args[2], n, st)
            else:
                for o in a0.objs:
                    self.mutate(V(objs=frozenset([o])), st, n, "setattr(?)", d)
            return V(consts=frozenset([NONE]))
        if name == "type":
            cs = set()
            opaque = False
            for o in a0.objs:
                ob = self.objs[o]
                if ob.cls is not None:
                    cs.add(("k", ob.cls))
                elif ob.kind == "array":
                    cs.add(("x", "numpy.ndarray"))
                elif ob.kind in ("list", "dict", "tuple", "set"):
                    cs.add(("b", ob.kind))
                else:
                    opaque = True
            for c in a0.consts:
                if c[0] == "c":
                    cs.add(("b", c[1]))
                elif c[0] == "e" and c[1] in self.prog.classes:
                    cs.add(("k", self.prog.classes[c[1]]))
                elif c == NONE:
                    cs.add(("b", "NoneType"))
                else:
                    opaque = True
            for u in a0.unk:
                if u in ("float", "int", "bool", "str", "complex", "bytes"):
                    cs.add(("b", u))
                    if u in ("float", "int", "complex"):
                        opaque = True       # may be a numpy scalar
                else:
                    opaque = True
            return V(consts=frozenset(cs), unk=frozenset(["any"]) if opaque or not cs else E, deps=d)
        if name in ("map", "filter"):
            oid = self.alloc("iter", n, st)
            ev = self.iter_elems(args[1], n, st)[0] if len(args) > 1 else V(unk=frozenset(["any"]))
            try:
                r = self.call(a0, [self.iter_elems(a, n, st)[0] for a in args[1:]], {}, n, st)
            except Dead:
                r = V(unk=frozenset(["any"]))
            self.store_raw(st, oid, "[]", r if name == "map" else ev)
            return V(objs=frozenset([oid]), deps=d)
        if name == "callable":
            t = set()
            for o in a0.objs:
                t.add(self.kind(o) in ("func", "callable") if self.kind(o) != "any" else None)
            for c in a0.consts:
                t.add(c[0] in ("f", "k", "bm", "b", "x", "cm", "om"))
            if a0.unk & {"any"}:
                t.add(None)
            elif a0.unk:
                t.add(False)
            if len(t) == 1 and None not in t:
                return V(consts=frozenset([ckey(t.pop())]), deps=d)
            return V(unk=frozenset(["bool"]), deps=d)
        if name == "slice":
            return V(unk=frozenset(["slice"]), deps=d)
        if name in ("vars",):
            return V(unk=frozenset(["any"]), deps=d)
        self.call_closures(args, kwargs, n, st)
        return V(unk=frozenset(["any"]), deps=d)

    def single_sym(self, v):
        c = v.single_const()
        if c is not None and c[0] in ("c", "n", "e"):
            return c
        if v.sym is not None:
            return v.sym
        if len(v.objs) == 1 and not v.unk and not v.consts:
            o = self.objs[next(iter(v.objs))]
            if o.origin is not None:
                return ("p", o.origin)
        return None

    def class_set(self, v):
        """classes denoted by the 2nd argument of isinstance -> list of ('k',ci)|('b',name)|('x',q), exact?"""
        out = []
        exact = True
        for c in v.consts:
            if c[0] in ("k", "b", "x"):
                out.append(c)
            else:
                exact = False
        if v.unk:
            exact = False
        return out, exact

    def classes_of(self, cv, st):
        classes = []
        exact = True
        for o in cv.objs:
            kl = self.known_len(o, st)
            if kl is None:
                exact = False
                continue
            for i in range(kl):
                a, e = self.class_set(st.heap[(o, f"[{i}]")])
                classes += a
                exact = exact and e
        a, e = self.class_set(cv)
        return classes + a, exact and e

    def isinstance_(self, n, args, st):
        v = args[0]
        d = self.deps_of(v, st)
        cv = args[1] if len(args) > 1 else V()
        classes, exact = self.classes_of(cv, st)
        t = set()
        yes, no = self.split_isinstance(v, classes)
        if yes is not None:
            t.add(True)
        if no is not None:
            t.add(False)
        if not exact:
            t = {True, False}
        s = self.single_sym(v)
        sym = mk("cmp", "isinst", s, ("set",) + tuple(sorted((repr(c[1]) for c in classes)))) if s else None
        if len(t) == 1:
            r = V(consts=frozenset([ckey(t.pop())]), deps=d, sym=sym)
        else:
            r = V(unk=frozenset(["bool"]), deps=d, sym=sym)
        self.lastcmp[id(n)] = (v, classes if exact else None, sym, r)
        return r

    NUMS = {"float": {"float"}, "int": {"int", "bool"}, "bool": {"bool"}, "str": {"str"}, "complex": {"complex"},
            "bytes": {"bytes"}, "slice": {"slice"}}

    def split_isinstance(self, v, classes, exactly=False):
        """-> (value if instance, value if not) ; None when impossible"""
        yo, no_, yc, nc, yu, nu = set(), set(), set(), set(), set(), set()
        bn = {c[1] for c in classes if c[0] == "b"}
        kn = [c[1] for c in classes if c[0] == "k"]
        xn = {c[1] for c in classes if c[0] == "x"}
        for o in v.objs:
            ob = self.objs[o]
            r = None
            if ob.kind == "inst" and exactly:
                r = ob.cls in kn
            elif ob.kind == "inst":
                r = any(ob.cls.is_sub(k) for k in kn)
                if not r and any(k.is_sub(ob.cls) for k in kn):
                    # declared base class: may be the subclass
                    r = None if self.opt.get("open_types") and ob.origin is not None else False
            elif ob.kind in ("list", "dict", "tuple", "set"):
                r = ob.kind in bn
            elif ob.kind == "array":
                r = "numpy.ndarray" in xn
            elif ob.kind in ("func", "callable"):
                r = any("Callable" in x for x in xn)
            else:
                r = None
            if r in (True, None):
                yo.add(o)
            if r in (False, None):
                no_.add(o)
        for c in v.consts:
            if c == NONE:
                r = False
            elif c[0] == "c":
                r = c[1] in bn or (c[1] == "bool" and "int" in bn)
            elif c[0] == "e":
                r = any(k.qualname == c[1] for k in kn)
            else:
                r = False
            (yc if r else nc).add(c)
        for u in v.unk:
            if u == "any":
                yu.add(u)
                nu.add(u)
            else:
                r = any(u in self.NUMS.get(b, {b}) for b in bn)
                if exactly and u in ("float", "int", "complex"):
                    yu.add(u)           # numpy scalars may be declared as such
                    nu.add(u)
                    continue
                if u == "float" and any("float" in x or "floating" in x or "Number" in x for x in xn):
                    r = True
                (yu if r else nu).add(u)
        y = v.w(objs=frozenset(yo), consts=frozenset(yc), unk=frozenset(yu)) if (yo or yc or yu) else None
        nn = v.w(objs=frozenset(no_), consts=frozenset(nc), unk=frozenset(nu)) if (no_ or nc or nu) else None
        return y, nn

    def hasattr_(self, args, st):
        v, nm = args[0], args[1].single_const() if len(args) > 1 else None
        d = self.deps_of(v, st)
        t = set()
        if nm and nm[0] == "c":
            for o in v.objs:
                ob = self.objs[o]
                if ob.kind == "inst":
                    fr = self.frames[-1]
                    kk, th = ob.cls.lookup(nm[2])
                    fld = nm[2]
                    if kk == "prop" and th[0] is not None:
                        fld = self.getter_field(th[0])
                        if fld is None:
                            t |= {True, False}
                            continue
                    elif kk is not None:
                        t.add(True)
                        continue
                    forced = self.opt.get("forced_fields")
                    if forced is not None and fld in forced and (ob.origin is not None or ob.clone_of is not None) \
                            and (forced[fld] or (o, fld) not in st.heap):
                        t.add(forced[fld])
                    elif (o, fld) in st.heap:
                        t.add(True)
                        if st.heap[(o, fld)].ub:
                            t.add(False)
                    elif fld not in self.prog.fields(ob.cls):
                        t.add(False)
                    elif ob.origin is None and ob.clone_of is None and ob.extra is None:
                        t.add(False)
                    else:
                        t |= {True, False}
                else:
                    t |= {True, False}
            if v.unk:
                t |= {True, False}
        if len(t) == 1:
            return V(consts=frozenset([ckey(t.pop())]), deps=d)
        return V(unk=frozenset(["bool"]), deps=d)

    def getter_field(self, g):
        """field handed out by a trivial getter, else None"""
        rets = [x for x in ast.walk(g.node) if isinstance(x, ast.Return)]
        rv = rets[0].value if len(rets) == 1 else None
        for _ in range(3):
            if isinstance(rv, ast.Name) and g.params and rv.id != g.params[0].name:
                la = list(self.prog._local_assigns(g, rv.id))
                rv = la[0] if len(la) == 1 else None
        if isinstance(rv, ast.Attribute) and isinstance(rv.value, ast.Name) \
                and g.params and rv.value.id == g.params[0].name:
            return mangle(g.cls, rv.attr)
        return None

    # -- external functions
    def call_ext(self, q, args, kwargs, n, st, dstar, star):
        d = self.argdeps(args, kwargs, dstar, st, star)
        self.extcalls.setdefault(q, set()).add((self.where(), self.loc(n)))
        a0 = args[0] if args else None
        for h in self.hooks:
            h.on_ext(self, st, q, args, kwargs, n)
        if q in ("copy.deepcopy",) and a0 is not None:
            return self.clone(a0, n, st)
        if q == "copy.copy" and a0 is not None:
            return self.clone(a0, n, st, shallow=True)
        out = kwargs.get("out")
        if out is not None and out.objs:
            self.mutate(out, st, n, "out=", d)
        for kw in L.OVERWRITE_KW:
            if kw in kwargs and kwargs[kw].single_const() != ckey(False) and a0 is not None:
                self.mutate(a0, st, n, kw, d)
        if q in L.MUT_FUNCS and a0 is not None:
            self.mutate(a0, st, n, q, d)
            return V(consts=frozenset([NONE]))
        if q == "numpy.array" and a0 is not None:
            cp = kwargs.get("copy")
            if cp is not None and cp.single_const() in (ckey(False), NONE):
                return self._as_array(a0, d, n, st)
        if q == "numpy.nan_to_num" and a0 is not None:
            cp = kwargs.get("copy")
            if cp is not None and cp.single_const() == ckey(False):
                self.mutate(a0, st, n, q, d)
                return a0
        if q in L.VIEW_FUNCS:
            if a0 is None:
                a0 = next(iter(kwargs.values()), V())
            return self._as_array(a0, d, n, st)
        if q in ("numpy.concatenate", "numpy.hstack", "numpy.vstack"):
            pass
        if q.startswith(L.RANDOM_PREFIX) or q in L.TIME_FUNCS:
            d = d | frozenset(["<random>"])
        if q in ("warnings.warn",):
            return V(consts=frozenset([NONE]))
        if q in ("numpy.all", "numpy.any", "numpy.isclose", "numpy.allclose", "numpy.array_equal", "numpy.iscomplexobj",
                 "numpy.isscalar", "numpy.isrealobj", "numpy.issubdtype"):
            s = [self.single_sym(a) for a in args]
            sym = mk("call", q, *s) if None not in s and not kwargs else None
            if q in ("numpy.isclose",):
                oid = self.alloc("array", n, st)
                self.taint(st, oid, d)
                return V(objs=frozenset([oid]), deps=d)
            if q == "numpy.issubdtype" and a0 is not None and a0.consts and not a0.unk and not a0.objs and all(
                    c[0] == "k" or c in (("x", "numpy.ndarray"), ("b", "NoneType"), ("b", "list"), ("b", "tuple"),
                                         ("b", "dict"), ("b", "str"), ("b", "set")) for c in a0.consts):
                return V(consts=frozenset([ckey(False)]), deps=d, sym=sym)
            return V(unk=frozenset(["bool"]), deps=d, sym=sym)
        if q.startswith(("numpy.", "scipy.")):
            self.call_closures(args, kwargs, n, st)
            if q in ("numpy.argmax", "numpy.argmin", "numpy.ndim", "numpy.size", "scipy.fft.next_fast_len",
                     "numpy.max", "numpy.min", "numpy.amax", "numpy.amin") and "axis" not in kwargs:
                s = self.single_sym(a0) if a0 is not None else None
                return V(unk=frozenset(["int"]) if "arg" in q or q.endswith(("dim", "size", "len")) else frozenset(["float"]),
                         deps=d, sym=mk("call", q, s) if s else None,
                         unit=a0.unit if a0 is not None and q.split(".")[-1] in ("max", "min", "amax", "amin") else None)
            oid = self.alloc("array", n, st)
            self.objs[oid].extra = None
            self.taint(st, oid, d)
            u = None
            for h in self.hooks:
                u = u or h.ext_unit(self, st, q, args, kwargs, n)
            types = E
            if a0 is not None and not a0.objs and not kwargs and q.split(".")[-1] in (
                    "abs", "sqrt", "log10", "log2", "log", "exp", "ceil", "floor", "round", "sin", "cos", "tan", "deg2rad",
                    "radians", "float64", "int_", "pi", "sign", "arctan", "sinc", "real", "max", "min", "isnan", "isfinite"):
                s = self.single_sym(a0)
                return V(unk=frozenset(["float"]), deps=d, unit=u, sym=mk("call", q, s) if s and len(args) == 1 else None)
            s = [self.single_sym(a) for a in args]
            sym = mk("call", q, *s) if args and None not in s and not kwargs else None
            # multi-output functions: element access of an array value works for them too
            return V(objs=frozenset([oid]), deps=d, unit=u, sym=sym)
        # other externals: side effects allowed, result unknown
        self.sinks |= d | self.cur_ctl | st.sticky
        self.call_closures(args, kwargs, n, st)
        for a in list(args) + list(kwargs.values()):
            for o in a.objs:
                if self.kind(o) == "ext":
                    self.taint(st, o, d)
        if q == "os.path.join" or q.startswith(("os.path.",)):
            return V(unk=frozenset(["str"]), deps=d)
        if q.startswith("math."):
            return V(unk=frozenset(["float"]), deps=d)
        oid = self.alloc("ext", n, st)
        self.taint(st, oid, d)
        return V(objs=frozenset([oid]), deps=d)

    def _as_array(self, a0, d, n, st):
        objs = set()
        fresh = False
        for o in a0.objs:
            if self.kind(o) in ("array", "any"):
                objs.add(o)
            else:
                fresh = True
        if fresh or a0.unk or a0.consts or not objs:
            oid = self.alloc("array", n, st)
            self.taint(st, oid, d)
            objs.add(oid)
        return V(objs=frozenset(objs), deps=d, unit=a0.unit, sym=None)

    # ------------------------------------------------------------- refinement
    def refine(self, test, val, st):
        """Assume `test` evaluates to `val`; False when infeasible."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not val, st)
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            if isand == val:
                for e in test.values:
                    if not self.refine(e, val, st):
                        return False
                return True
            # exactly: some operand differs; refine when only one is undecided
            und = []
            for e in test.values:
                lc = self.lastcmp.get(id(e))
                if lc is not None and lc[3] is not None:
                    t = self.truth(lc[3])
                    if t == {isand}:
                        continue
                und.append(e)
            if len(und) == 1:
                return self.refine(und[0], val, st)
            # union of the alternatives for a single shared target
            if not isand and val:
                return True
            return True
        if self.hooks and isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "hasattr" \
                and len(test.args) == 2 and isinstance(test.args[1], ast.Constant):
            v = self.target_value(test.args[0], st)
            if v is not None and len(v.objs) == 1:
                o = self.objs[next(iter(v.objs))]
                for h in self.hooks:
                    h.on_hasattr(self, st, o, mangle(self.frames[-1].cls, str(test.args[1].value)), val)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            lc = self.lastcmp.get(id(test))
            if lc is None:
                return True
            a, b, sym, res = lc
            t = self.truth(res)
            if t == {not val}:
                return False
            if sym is not None:
                st.facts = st.facts | {sym if val else negate(sym)}
            op = self.CMP[type(test.ops[0])]
            pos = op in ("==", "is", "in")
            tl = test.left
            if isinstance(tl, ast.Call) and isinstance(tl.func, ast.Name) and tl.func.id == "type" \
                    and len(tl.args) == 1:
                cur = self.target_value(tl.args[0], st)
                if cur is None:
                    return True
                classes, exact = self.classes_of(b, st)
                if exact and op in ("==", "is", "!=", "isnot", "in", "notin"):
                    y, nn = self.split_isinstance(cur, classes, exactly=True)
                    new = y if (val if pos else not val) else nn
                    if new is None:
                        return False
                    self.set_target(tl.args[0], new, st)
                return True
            if op in ("==", "is", "!=", "isnot"):
                ca, cb = a.single_const(), b.single_const()
                eq = val if pos else not val
                if cb is not None and cb[0] in ("c", "n", "e"):
                    return self.refine_const(test.left, a, frozenset([cb]), eq, st)
                if ca is not None and ca[0] in ("c", "n", "e"):
                    return self.refine_const(test.comparators[0], b, frozenset([ca]), eq, st)
                if cb is not None and cb[0] == "k" and eq and isinstance(test.left, ast.Call):
                    pass
            elif op in ("in", "notin"):
                pc = self.possible_consts(b, st)
                if pc is not None:
                    return self.refine_const(test.left, a, pc, val if pos else not val, st)
            return True
        if isinstance(test, ast.Call):
            lc = self.lastcmp.get(id(test))
            if lc is not None and isinstance(test.func, ast.Name) and test.func.id == "isinstance":
                v, classes, sym, res = lc
                if sym is not None:
                    st.facts = st.facts | {sym if val else negate(sym)}
                if classes is None:
                    return True
                y, nn = self.split_isinstance(v, classes)
                new = y if val else nn
                if new is None:
                    return False
                self.set_target(test.args[0], new, st)
                return True
            return True
        if isinstance(test, ast.Name):
            v = st.env.get(test.id)
            if v is None:
                return True
            cs = frozenset(c for c in v.consts if self.const_truth(c) in (val, None))
            unk = v.unk
            objs = v.objs
            if not val:
                objs = frozenset(o for o in objs if self.kind(o) not in ("func", "callable") and not (
                    self.kind(o) == "inst" and self.objs[o].cls.lookup("__len__")[0] is None))
            if not cs and not unk and not objs:
                return False
            if unk == {"bool"} and not objs:
                cs = cs | {ckey(val)}
                unk = E
            st.env[test.id] = v.w(consts=cs, unk=unk, objs=objs)
            if v.sym is not None and v.unk == {"bool"} and not v.objs:
                self._add_refined(st, v.sym, frozenset([ckey(val)]), None)
            return True
        if isinstance(test, ast.NamedExpr):
            return True
        if isinstance(test, ast.Attribute):
            try:
                s2 = st
                # use symbolic identity only; evaluation of plain fields has no effect
                if isinstance(test.value, ast.Name) and test.value.id in st.env:
                    base = st.env[test.value.id]
                    if len(base.objs) == 1 and not base.unk:
                        o = next(iter(base.objs))
                        ob = self.objs[o]
                        if ob.kind == "inst" and ob.cls.lookup(test.attr)[0] != "prop":
                            f = mangle(self.frames[-1].cls, test.attr)
                            if f in self.prog.fields(ob.cls) or (o, f) in st.heap:
                                v = self.load(st, o, f)
                                cs = frozenset(c for c in v.consts if self.const_truth(c) in (val, None))
                                if not cs and not v.unk and not v.objs:
                                    return False
                                if v.unk == {"bool"} and v.sym is not None:
                                    self._add_refined(st, v.sym, frozenset([ckey(val)]), None)
                                elif v.consts != cs:
                                    if (o, f) in st.heap:
                                        st.heap[(o, f)] = v.w(consts=cs)
            except Dead:
                return True
            return True
        return True

    def target_slot(self, t, st):
        """(object, field) of a plain field access x.f with a single x"""
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            base = st.env.get(t.value.id)
            if base is not None and len(base.objs) == 1 and not base.unk and not base.consts:
                o = next(iter(base.objs))
                ob = self.objs[o]
                if ob.kind == "inst" and ob.cls.lookup(t.attr)[0] != "prop":
                    f = mangle(self.frames[-1].cls, t.attr)
                    if (o, f) in st.heap or f in self.prog.fields(ob.cls):
                        return o, f
        return None

    def target_value(self, t, st):
        if isinstance(t, ast.Name):
            return st.env.get(t.id)
        s = self.target_slot(t, st)
        return self.load(st, *s) if s else None

    def set_target(self, t, new, st):
        if isinstance(t, ast.Name):
            if t.id in st.env:
                st.env[t.id] = new
            return
        s = self.target_slot(t, st)
        if s:
            st.heap[s] = new
            self.objs[s[0]].fnames.add(s[1])

    def refine_const(self, target, v, cset, eq, st):
        if eq:
            cs = v.consts & cset
            numeric = frozenset(c for c in v.consts if self._eqconst(c, cset))
            cs = cs | numeric
            opaque = bool(v.unk) or any(c[0] == "om" for c in v.consts) or any(self.kind(o) in ("any", "array", "ext", "callable") for o in v.objs)
            if not cs and not opaque:
                return False
            arr = frozenset(o for o in v.objs if self.kind(o) == "array") if cset != {NONE} else E
            new = v.w(consts=cset if opaque else cs, objs=arr, unk=E)
        else:
            new = v.w(consts=v.consts - cset)
            if not new.consts and not new.objs and not new.unk:
                return False
        if isinstance(target, ast.Name) and target.id in st.env:
            st.env[target.id] = new
        elif isinstance(target, ast.NamedExpr) and target.target.id in st.env:
            st.env[target.target.id] = new
        elif isinstance(target, (ast.Attribute,)) and isinstance(target.value, ast.Name):
            base = st.env.get(target.value.id)
            if base is not None and len(base.objs) == 1 and not base.unk and not base.consts:
                o = next(iter(base.objs))
                ob = self.objs[o]
                if ob.kind == "inst" and ob.cls.lookup(target.attr)[0] != "prop":
                    f = mangle(self.frames[-1].cls, target.attr)
                    if (o, f) in st.heap or f in self.prog.fields(ob.cls):
                        if (o, f) in st.heap:
                            st.heap[(o, f)] = new
        if v.sym is not None and v.sym[0] in ("p", "call", "idx"):
            if eq and new.consts and not new.objs and not new.unk:
                self._add_refined(st, v.sym, new.consts, None)
            elif not eq:
                self._add_refined(st, v.sym, None, cset)
        return True

    # ----------------------------------------------------------------- entry
    def run_entry(self, fi, args, selfv=None, name="<entry>"):
        """args: dict param -> V.  -> (V or None, State or None)"""
        st = State(tags=frozenset(self.opt.get("tags", ())))
        for h in self.hooks:
            h.on_entry(self, st, fi)
        env = dict(args)
        try:
            v = self.run_body(fi, env, fi.node, st)
        except Dead:
            return None, None
        return v, st


MUT = V(unk=frozenset(["mut"]))


class _Part:
    cache = {}

    @classmethod
    def get(cls, node, i):
        k = (id(node), i)
        p = cls.cache.get(k)
        if p is None:
            p = cls.cache[k] = _PartNode(node, i)
        return p


class _PartNode:
    def __init__(self, node, i):
        self.node, self.i = node, i


class _ModFnInfo:
    """Frame owner for module-level expressions."""

    def __init__(self, module):
        self.module = module
        self.cls = None
        self.qualname = module.name + ".<module>"
        self.params = []
        self.node = module.tree
        self.name = "<module>"

    def locals(self):
        return ()


def _decname(d):
    if isinstance(d, ast.Call):
        d = d.func
    return d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ""


def _is_abs(d):
    while isinstance(d, ast.Call):
        d = d.func
    return (isinstance(d, ast.Attribute) and d.attr == "abstractmethod") or (
        isinstance(d, ast.Name) and d.id == "abstractmethod")


class Hook:
    def on_entry(self, ip, st, fi):
        pass

    def on_load(self, ip, st, o, f, node):
        pass

    def on_clone(self, ip, st, src, dst):
        pass

    def on_hasattr(self, ip, st, o, f, val):
        pass

    def on_store(self, ip, st, o, field, v, node):
        pass

    def on_mutate(self, ip, st, o, how, node):
        pass

    def on_call(self, ip, st, fi, env, node):
        return None

    def on_return(self, ip, st, fi, env, v):
        pass

    def on_unset(self, ip, st, o, f, node):
        pass

    def on_assign(self, ip, st, name, v, node):
        pass

    def on_index(self, ip, st, base, idx, node, store):
        pass

    def on_setitem(self, ip, st, base, idx, v, node):
        pass

    def on_ext_result(self, ip, st, q, args, kwargs, n, r):
        return None

    def on_len(self, ip, st, v, n, r):
        return None

    def decide(self, ip, st, n, op, a, b):
        """truth of a comparison in the scenario under study"""
        return None

    def on_binop(self, ip, st, n, op, a, b):
        return None

    def on_compare(self, ip, st, n, op, a, b):
        pass

    def on_ext(self, ip, st, q, args, kwargs, n):
        pass

    def ext_unit(self, ip, st, q, args, kwargs, n):
        return None
