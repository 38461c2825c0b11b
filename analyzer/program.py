"""Resolved model of the package under /repo: modules, classes, functions,
imports, annotations and (inferred) field types.  Nothing is executed."""
from __future__ import annotations
import ast
import os

REPO = os.environ.get("DSPTB_REPO", "/repo")
PKG = "dsptoolbox"


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished: not a verdict."""


# --------------------------------------------------------------------- types
# A type atom is a tuple:
#  ("inst", ClassInfo) ("enum", ClassInfo) ("arr",) ("arrlike",)
#  ("float",) ("int",) ("bool",) ("str",) ("complex",) ("bytes",) ("none",)
#  ("list", atoms) ("tuple", (atoms, ...) ) ("vartuple", atoms) ("dict", atoms)
#  ("set",) ("callable",) ("any",) ("ext", name) ("slice",) ("const", value)
ANY = frozenset([("any",)])
# field types narrower than what the assigned expressions declare (append_signals
# of single-band signals declares the union of its input kinds)
FIELD_TYPES = {
    ("BaseCrossover", "_BaseCrossover__filters_synthesis"): "list[Filter]",
    ("FilterChain", "filters"): "list[RealtimeFilter]",
    ("CalibrationData", "calibration_signal"): "Signal"}
SCALARS = {"float", "int", "bool", "str", "complex", "bytes", "slice"}


class Param:
    __slots__ = ("name", "ann", "default", "kind")

    def __init__(self, name, ann, default, kind):
        self.name, self.ann, self.default, self.kind = name, ann, default, kind


class FuncInfo:
    def __init__(self, name, node, module, cls=None, kind="func", parent=None):
        self.name, self.node, self.module, self.cls = name, node, module, cls
        self.kind = kind            # func method static classmethod getter setter lambda
        self.parent = parent
        owner = cls.qualname if cls is not None else module.name
        suffix = ".setter" if kind == "setter" else ""
        self.qualname = f"{owner}.{name}{suffix}"
        self.decorators = getattr(node, "decorator_list", [])
        a = node.args
        ps = []
        pos = list(a.posonlyargs) + list(a.args)
        nd = len(pos) - len(a.defaults)
        for i, arg in enumerate(pos):
            ps.append(Param(arg.arg, arg.annotation,
                            a.defaults[i - nd] if i >= nd else None, "pos"))
        if a.vararg:
            ps.append(Param(a.vararg.arg, a.vararg.annotation, None, "vararg"))
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            ps.append(Param(arg.arg, arg.annotation, d, "kwonly"))
        if a.kwarg:
            ps.append(Param(a.kwarg.arg, a.kwarg.annotation, None, "kwarg"))
        self.params = ps
        self._locals = None

    @property
    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    @property
    def is_bound(self):
        return self.kind in ("method", "getter", "setter", "classmethod")

    def locals(self):
        """Names assigned in this function (excluding nested functions)."""
        if self._locals is None:
            names = {p.name for p in self.params}
            glob = set()

            def targets(t):
                if isinstance(t, ast.Name):
                    names.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for e in t.elts:
                        targets(e)
                elif isinstance(t, ast.Starred):
                    targets(t.value)

            def visit(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        names.add(c.name)
                        continue
                    if isinstance(c, ast.Lambda):
                        continue
                    if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        # own scope; walrus ignored
                        continue
                    if isinstance(c, ast.Assign):
                        for t in c.targets:
                            targets(t)
                    elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For)):
                        targets(c.target)
                    elif isinstance(c, ast.NamedExpr):
                        targets(c.target)
                    elif isinstance(c, ast.withitem) and c.optional_vars is not None:
                        targets(c.optional_vars)
                    elif isinstance(c, ast.ExceptHandler) and c.name:
                        names.add(c.name)
                    elif isinstance(c, (ast.Import, ast.ImportFrom)):
                        for al in c.names:
                            names.add((al.asname or al.name).split(".")[0])
                    elif isinstance(c, ast.Global):
                        glob.update(c.names)
                    elif isinstance(c, (ast.MatchAs, ast.MatchStar)) and c.name:
                        names.add(c.name)
                    visit(c)
            if not isinstance(self.node, ast.Lambda):
                visit(self.node)
            self._locals = names - glob
        return self._locals


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.qualname = f"{module.name}.{name}"
        self.bases = []
        self.ext_bases = []
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.attrs = {}        # class-level assignments: name -> value node
        self.attr_ann = {}
        self.members = {}      # enum members in order
        self._fields = None
        self._mro = None
        self.subclasses = []

    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.bases:
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            self._mro = out
        return self._mro

    def is_sub(self, other):
        return other in self.mro()

    def all_subclasses(self):
        out = [self]
        for s in self.subclasses:
            for c in s.all_subclasses():
                if c not in out:
                    out.append(c)
        return out

    @property
    def is_enum(self):
        return any(b in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag")
                   for c in self.mro() for b in c.ext_bases)

    def has_ext_base(self):
        return any(b not in ("abc.ABC", "object", "enum.Enum") for c in self.mro() for b in c.ext_bases)

    def find(self, table, name):
        for c in self.mro():
            t = getattr(c, table)
            if name in t:
                return t[name]
        return None

    def lookup(self, name):
        """-> (kind, thing) resolving in MRO order."""
        for c in self.mro():
            if name in c.getters or name in c.setters:
                return "prop", (c.getters.get(name), c.find("setters", name))
            if name in c.methods:
                return "method", c.methods[name]
            if name in c.attrs:
                return "attr", (c, c.attrs[name])
        return None, None

    def is_abstract(self):
        for c in self.mro():
            for m in list(c.methods.values()) + list(c.getters.values()):
                if any(_dec_name(d).endswith("abstractmethod") for d in m.decorators):
                    if c.find("methods", m.name) is None:
                        continue
                    impl = None
                    for k in self.mro():
                        if m.name in k.methods:
                            impl = k.methods[m.name]
                            break
                        if m.name in k.getters:
                            impl = k.getters[m.name]
                            break
                    if impl is m:
                        return True
        return False

    def __repr__(self):
        return f"<class {self.qualname}>"


def _dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    parts = []
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
    return ".".join(reversed(parts))


class Module:
    def __init__(self, name, path, relpath, tree, is_pkg):
        self.name, self.path, self.relpath, self.tree, self.is_pkg = name, path, relpath, tree, is_pkg
        self.symbols = {}      # name -> tuple
        self.all = None
        self.var_nodes = {}

    def __repr__(self):
        return f"<mod {self.name}>"


class Program:
    def __init__(self, repo=REPO, overlay=None):
        self.repo = repo
        self.overlay = overlay or {}        # module name -> source (self-checks of the rules)
        self.modules = {}
        self.functions = []
        self.classes = {}
        self._load()
        self._link()
        self._fieldguard = set()

    # -------------------------------------------------------------- loading
    def _load(self):
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package {root} not found")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if not x.startswith((".", "__pycache__")))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                tree = ast.parse(src, filename=p)
                self.modules[name] = Module(name, p, rel, tree, is_pkg)
        for name, src in self.overlay.items():
            self.modules[name] = Module(name, "<selfcheck>", "<selfcheck>", ast.parse(src), False)
        for m in self.modules.values():
            self._collect(m, m.tree.body)

    def _collect(self, m, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                if any(_dec_name(d).endswith("overload") for d in n.decorator_list):
                    continue
                fi = FuncInfo(n.name, n, m)
                self.functions.append(fi)
                m.symbols[n.name] = ("func", fi)
            elif isinstance(n, ast.ClassDef):
                ci = ClassInfo(n.name, n, m)
                m.symbols[n.name] = ("class", ci)
                self.classes[ci.qualname] = ci
                self._collect_class(ci)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.symbols[a.asname] = self._modsym(a.name)
                    else:
                        top = a.name.split(".")[0]
                        m.symbols[top] = self._modsym(top)
            elif isinstance(n, ast.ImportFrom):
                base = self._abs(m, n)
                for a in n.names:
                    if a.name == "*":
                        m.symbols.setdefault("*", [])
                        m.symbols["*"].append(base)
                        continue
                    m.symbols[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    if isinstance(t, ast.Name) and n.value is not None:
                        m.symbols[t.id] = ("var", m, n.value)
                        if t.id == "__all__" and isinstance(n.value, (ast.List, ast.Tuple)):
                            m.all = [(e.value, e) for e in n.value.elts if isinstance(e, ast.Constant)]
            elif isinstance(n, ast.Try):
                # names bound by the handlers first, the regular body wins
                for h in n.handlers:
                    self._collect(m, h.body)
                self._collect(m, n.body)
                self._collect(m, n.orelse)
                self._collect(m, n.finalbody)
            elif isinstance(n, ast.If):
                self._collect(m, n.orelse)
                self._collect(m, n.body)
            elif isinstance(n, ast.With):
                self._collect(m, n.body)

    def _modsym(self, name):
        if name == PKG or name.startswith(PKG + "."):
            return ("mod", name)
        return ("ext", name)

    def _abs(self, m, n):
        if n.level == 0:
            return n.module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if n.level > 1:
            parts = parts[: -(n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))

    def _collect_class(self, ci):
        for n in ci.node.body:
            if isinstance(n, ast.FunctionDef):
                decs = [_dec_name(d) for d in n.decorator_list]
                if any(d.endswith("overload") for d in decs):
                    continue
                if "property" in decs or any(d.endswith("cached_property") for d in decs):
                    fi = FuncInfo(n.name, n, ci.module, ci, "getter")
                    ci.getters[n.name] = fi
                elif any(d.endswith(".setter") for d in decs):
                    fi = FuncInfo(n.name, n, ci.module, ci, "setter")
                    ci.setters[n.name] = fi
                else:
                    kind = "method"
                    if "staticmethod" in decs:
                        kind = "static"
                    elif "classmethod" in decs:
                        kind = "classmethod"
                    fi = FuncInfo(n.name, n, ci.module, ci, kind)
                    ci.methods[n.name] = fi
                self.functions.append(fi)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                ci.attr_ann[n.target.id] = n.annotation
                if n.value is not None:
                    ci.attrs[n.target.id] = n.value

    def _link(self):
        for ci in self.classes.values():
            for b in ci.node.bases:
                r = self.resolve_expr(ci.module, b)
                if r and r[0] == "class":
                    ci.bases.append(r[1])
                    r[1].subclasses.append(ci)
                elif r and r[0] == "ext":
                    ci.ext_bases.append(r[1])
                elif isinstance(b, ast.Name):
                    ci.ext_bases.append(b.id)
        for ci in self.classes.values():
            if ci.is_enum:
                for k, v in ci.attrs.items():
                    if not k.startswith("_"):
                        ci.members[k] = v

    # ------------------------------------------------------------ resolving
    def resolve(self, module, name, depth=0):
        """Resolve a global name of a module."""
        if depth > 12:
            return None
        s = module.symbols.get(name)
        if s is None:
            for base in module.symbols.get("*", []):
                bm = self.modules.get(base)
                if bm:
                    r = self.resolve(bm, name, depth + 1)
                    if r:
                        return r
            sub = module.name + "." + name
            if module.is_pkg and sub in self.modules:
                return ("mod", sub)
            return None
        if s[0] == "from":
            base, nm = s[1], s[2]
            if base in self.modules:
                r = self.resolve(self.modules[base], nm, depth + 1)
                if r is not None:
                    return r
                if base + "." + nm in self.modules:
                    return ("mod", base + "." + nm)
                return ("missing", base, nm)
            if base == PKG or base.startswith(PKG + "."):
                return ("missing", base, nm)
            return ("ext", base + "." + nm)
        return s

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            return self.resolve(module, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(module, e.value)
            if b is None:
                return None
            if b[0] == "mod":
                mm = self.modules.get(b[1])
                return self.resolve(mm, e.attr) if mm else None
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    # ---------------------------------------------------------- annotations
    def ann_types(self, module, ann, cls=None):
        """Annotation -> frozenset of type atoms (or None when absent)."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return frozenset([("none",)])
            if isinstance(ann.value, str):
                try:
                    return self.ann_types(module, ast.parse(ann.value, mode="eval").body, cls)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.ann_types(module, ann.left, cls) | self.ann_types(module, ann.right, cls)
        if isinstance(ann, ast.Subscript):
            base = self._ann_name(module, ann.value)
            sl = ann.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if base in ("numpy.typing.NDArray", "numpy.ndarray"):
                return frozenset([("arr",)])
            if base in ("list", "typing.List", "Sequence", "collections.abc.Sequence", "typing.Sequence"):
                return frozenset([("list", self.ann_types(module, elts[0], cls))])
            if base in ("tuple", "typing.Tuple"):
                if len(elts) == 2 and isinstance(elts[1], ast.Constant) and elts[1].value is Ellipsis:
                    return frozenset([("vartuple", self.ann_types(module, elts[0], cls))])
                return frozenset([("tuple", tuple(self.ann_types(module, e, cls) for e in elts))])
            if base in ("dict", "typing.Dict"):
                return frozenset([("dict", self.ann_types(module, elts[-1], cls))])
            if base in ("typing.Optional",):
                return self.ann_types(module, elts[0], cls) | frozenset([("none",)])
            if base in ("typing.Union",):
                out = frozenset()
                for e in elts:
                    out |= self.ann_types(module, e, cls)
                return out
            if base in ("typing.Literal",):
                return frozenset(("const", e.value) for e in elts if isinstance(e, ast.Constant))
            if base in ("typing.Callable", "collections.abc.Callable", "Callable"):
                return frozenset([("callable",)])
            if base in ("typing.Type", "type"):
                return ANY
            return ANY
        base = self._ann_name(module, ann)
        if isinstance(base, ClassInfo):
            return frozenset([("enum" if base.is_enum else "inst", base)])
        simple = {"float": "float", "int": "int", "bool": "bool", "str": "str",
                  "complex": "complex", "bytes": "bytes", "slice": "slice"}
        if base in simple:
            return frozenset([(simple[base],)])
        if base in ("numpy.typing.NDArray", "numpy.ndarray"):
            return frozenset([("arr",)])
        if base in ("numpy.typing.ArrayLike",):
            return frozenset([("arr",), ("list", frozenset([("float",)])), ("float",)])
        if base in ("list", "typing.List"):
            return frozenset([("list", ANY)])
        if base in ("tuple",):
            return frozenset([("vartuple", ANY)])
        if base in ("dict",):
            return frozenset([("dict", ANY)])
        if base in ("set",):
            return frozenset([("set",)])
        if base in ("typing.Self",) and cls is not None:
            return frozenset([("inst", cls)])
        if base in ("typing.Callable", "collections.abc.Callable", "callable"):
            return frozenset([("callable",)])
        if base in ("typing.Any", "object"):
            return ANY
        if isinstance(base, str) and "." in base:
            if base.startswith("numpy.") and any(k in base for k in ("float", "int", "complex", "bool")):
                return frozenset([("float",)])
            return frozenset([("ext", base)])
        return ANY

    def _ann_name(self, module, e):
        r = self.resolve_expr(module, e)
        if r is None:
            return e.id if isinstance(e, ast.Name) else None
        if r[0] == "class":
            return r[1]
        if r[0] == "ext":
            return r[1]
        if r[0] == "var":
            return None
        return None

    # ------------------------------------------------------ field inference
    def fields(self, ci):
        """field (mangled) -> frozenset of type atoms, over the whole MRO."""
        out = {}
        for c in ci.mro():
            for k, v in self._own_fields(c).items():
                out[k] = out.get(k, frozenset()) | v
        return out

    def instance_assigned(self, ci, name):
        """is the attribute ever assigned on an instance?"""
        if not hasattr(self, "_stored_attrs"):
            self._stored_attrs = {}
            for c in self.classes.values():
                self._stored_attrs[c] = {x.attr for b in c.node.body for x in ast.walk(b)
                                         if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        return any(name in self._stored_attrs[c] for c in list(ci.mro()) + list(ci.all_subclasses()))

    def _own_fields(self, ci):
        if ci._fields is not None:
            return ci._fields
        if ci in self._fieldguard:
            return {}
        self._fieldguard.add(ci)
        f = {}
        for fi in list(ci.methods.values()) + list(ci.getters.values()) + list(ci.setters.values()):
            if not fi.params or fi.kind in ("static", "classmethod"):
                continue
            selfname = fi.params[0].name
            for n in ast.walk(fi.node):
                tg, val, ann = None, None, None
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self._field_target(ci, fi, f, t, n.value, selfname)
                    continue
                if isinstance(n, ast.AnnAssign):
                    tg, val, ann = n.target, n.value, n.annotation
                elif isinstance(n, ast.AugAssign):
                    continue
                if tg is None:
                    continue
                if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == selfname:
                    key = mangle(ci, tg.attr)
                    f[key] = f.get(key, frozenset()) | self.ann_types(ci.module, ann, ci)
        for k, a in ci.attr_ann.items():
            f[mangle(ci, k)] = self.ann_types(ci.module, a, ci)
        # a getter that simply hands a field out declares the field's type
        for g in ci.getters.values():
            if g.node.returns is None:
                continue
            rets = [n for n in ast.walk(g.node) if isinstance(n, ast.Return)]
            rv = rets[0].value if len(rets) == 1 else None
            for _ in range(3):
                if isinstance(rv, ast.Name) and g.params and rv.id != g.params[0].name:
                    la = list(self._local_assigns(g, rv.id))
                    rv = la[0] if len(la) == 1 else None
            if isinstance(rv, ast.Attribute) \
                    and isinstance(rv.value, ast.Name) and g.params \
                    and rv.value.id == g.params[0].name:
                key = mangle(ci, rv.attr)
                if key in f:
                    t = self.ann_types(ci.module, g.node.returns, ci)
                    if t != ANY:
                        f[key] = t | (f[key] & frozenset([("none",)]))
        for (cn, fn), ty in FIELD_TYPES.items():
            if cn == ci.name and fn in f:
                for c in self.classes.values():
                    if "list[" + c.name + "]" == ty:
                        f[fn] = frozenset([("list", frozenset([("inst", c)]))])
                    elif c.name == ty:
                        f[fn] = frozenset([("inst", c)])
        for k, t in f.items():
            # an unresolved assignment next to a known container kind
            if ("any",) in t and any(a[0] in ("dict", "list", "arr") for a in t):
                f[k] = t - {("any",)}
        ci._fields = f
        self._fieldguard.discard(ci)
        return f

    def _field_target(self, ci, fi, f, t, value, selfname):
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._field_target(ci, fi, f, e, None, selfname)
            return
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == selfname:
            k, _ = ci.lookup(t.attr)
            if k == "prop":
                return
            key = mangle(ci, t.attr)
            ty = self.light_type(fi, value, 0) if value is not None else ANY
            f[key] = f.get(key, frozenset()) | ty

    def light_type(self, fi, e, depth):
        if depth > 8 or e is None:
            return ANY
        m, ci = fi.module, fi.cls
        L = lambda x: self.light_type(fi, x, depth + 1)
        if isinstance(e, ast.Constant):
            v = e.value
            if v is None:
                return frozenset([("none",)])
            for t in (bool, int, float, complex, str, bytes):
                if isinstance(v, t):
                    return frozenset([(t.__name__,)])
            return ANY
        if isinstance(e, ast.Name):
            for p in fi.params:
                if p.name == e.id:
                    if p.kind == "kwarg":
                        return frozenset([("dict", ANY)])
                    if p.ann is not None:
                        base = self.ann_types(m, p.ann, ci)
                    elif p.default is not None:
                        base = L(p.default)
                        if base == frozenset([("none",)]):
                            base = ANY
                    else:
                        base = ANY
                    # assigned locally as well?
                    for v in self._local_assigns(fi, e.id):
                        base = base | L(v) if v is not None else base | ANY
                    return base
            out = frozenset()
            vals = self._local_assigns(fi, e.id)
            if vals:
                for v in vals:
                    out |= L(v) if v is not None else ANY
                return out
            r = self.resolve(m, e.id)
            if r and r[0] == "var":
                return self.light_type(_ModFn(r[1]), r[2], depth + 1)
            return ANY
        if isinstance(e, (ast.List, ast.ListComp)):
            if isinstance(e, ast.List):
                el = frozenset()
                for x in e.elts:
                    el |= L(x)
            else:
                el = L(e.elt) if not isinstance(e.elt, ast.Name) else ANY
            return frozenset([("list", el or ANY)])
        if isinstance(e, ast.Tuple):
            return frozenset([("tuple", tuple(L(x) for x in e.elts))])
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return frozenset([("dict", ANY)])
        if isinstance(e, ast.Compare):
            return frozenset([("bool",)])
        if isinstance(e, ast.UnaryOp):
            return frozenset([("bool",)]) if isinstance(e.op, ast.Not) else L(e.operand)
        if isinstance(e, ast.BoolOp):
            out = frozenset()
            for v in e.values:
                out |= L(v)
            return out
        if isinstance(e, ast.IfExp):
            return L(e.body) | L(e.orelse)
        if isinstance(e, ast.BinOp):
            a, b = L(e.left), L(e.right)
            u = a | b
            if ("arr",) in u:
                return frozenset([("arr",)])
            if all(t[0] in ("int", "float", "bool", "complex") for t in u):
                if isinstance(e.op, ast.Div):
                    return frozenset([("float",)])
                return frozenset([("float",)]) if ("float",) in u else u
            if all(t[0] == "str" for t in a):
                return a
            if any(t[0] == "list" for t in u):
                return frozenset(t for t in u if t[0] == "list")
            return ANY
        if isinstance(e, ast.JoinedStr):
            return frozenset([("str",)])
        if isinstance(e, ast.Lambda):
            return frozenset([("callable",)])
        if isinstance(e, ast.Attribute):
            # enum member / self field / property
            r = self.resolve_expr(m, e.value)
            if r and r[0] == "class":
                if r[1].is_enum and e.attr in r[1].members:
                    return frozenset([("enum", r[1])])
                return ANY
            base = L(e.value)
            if isinstance(e.value, ast.Name) and ci is not None and fi.params and fi.is_bound \
                    and e.value.id == fi.params[0].name:
                base = frozenset([("inst", ci)])
            out = frozenset()
            for t in base:
                if t[0] == "inst":
                    k, th = t[1].lookup(e.attr)
                    if k == "prop" and th[0] is not None:
                        out |= self.ann_types(t[1].module, th[0].node.returns, t[1]) or ANY
                    elif k is None:
                        out |= self._own_fields(t[1]).get(mangle(ci, e.attr), ANY)
                    else:
                        out |= ANY
                elif t[0] == "arr":
                    if e.attr in ("T", "real", "imag"):
                        out |= frozenset([("arr",)])
                    elif e.attr in ("ndim", "size"):
                        out |= frozenset([("int",)])
                    elif e.attr == "shape":
                        out |= frozenset([("vartuple", frozenset([("int",)]))])
                    else:
                        out |= ANY
                else:
                    out |= ANY
            return out or ANY
        if isinstance(e, ast.Subscript):
            base = L(e.value)
            out = frozenset()
            for t in base:
                if t[0] == "arr":
                    out |= frozenset([("arr",)])
                elif t[0] == "list":
                    out |= t[1] if not isinstance(e.slice, ast.Slice) else frozenset([t])
                elif t[0] == "vartuple":
                    out |= t[1]
                elif t[0] == "str":
                    out |= frozenset([t])
                else:
                    out |= ANY
            return out or ANY
        if isinstance(e, ast.Call):
            f = e.func
            r = self.resolve_expr(m, f)
            if r:
                if r[0] == "class":
                    return frozenset([("enum" if r[1].is_enum else "inst", r[1])])
                if r[0] == "func":
                    return self.ann_types(r[1].module, r[1].node.returns) or ANY
                if r[0] == "ext":
                    q = r[1]
                    if q in ("copy.deepcopy", "copy.copy") and e.args:
                        return L(e.args[0])
                    if q.startswith(("numpy.random.",)):
                        return ANY
                    if q in ("numpy.max", "numpy.min", "numpy.sum", "numpy.mean", "numpy.log2", "numpy.ceil",
                             "numpy.floor", "numpy.sqrt", "numpy.abs"):
                        return frozenset([("arr",)])
                    if q.startswith(("numpy.", "scipy.")):
                        return frozenset([("arr",)])
                    return ANY
            if isinstance(f, ast.Name):
                b = f.id
                if b in ("int", "len", "round"):
                    return frozenset([("int",)])
                if b in ("float", "sum"):
                    return frozenset([("float",)])
                if b == "abs" and e.args:
                    return L(e.args[0])
                if b in ("max", "min"):
                    return frozenset([("float",)])
                if b == "str":
                    return frozenset([("str",)])
                if b == "bool":
                    return frozenset([("bool",)])
                if b == "list":
                    return frozenset([("list", ANY)])
                if b == "dict":
                    return frozenset([("dict", ANY)])
                if b in ("isinstance", "hasattr", "callable"):
                    return frozenset([("bool",)])
                return ANY
            if isinstance(f, ast.Attribute):
                base = L(f.value)
                if isinstance(f.value, ast.Name) and ci is not None and fi.params and fi.is_bound \
                        and f.value.id == fi.params[0].name:
                    base = frozenset([("inst", ci)])
                rc = self.resolve_expr(m, f.value)
                if rc and rc[0] == "class":
                    k, th = rc[1].lookup(f.attr)
                    if k == "method":
                        return self.ann_types(th.module, th.node.returns, rc[1]) or ANY
                    return ANY
                out = frozenset()
                for t in base:
                    if t[0] == "inst":
                        k, th = t[1].lookup(f.attr)
                        if k == "method":
                            rt = self.ann_types(th.module, th.node.returns, t[1])
                            out |= rt if rt is not None else ANY
                        else:
                            out |= ANY
                    elif t[0] in ("arr", "list", "dict") and f.attr == "copy":
                        out |= frozenset([t])
                    elif t[0] == "arr":
                        out |= frozenset([("arr",)])
                    elif t[0] == "str":
                        out |= frozenset([t])
                    else:
                        out |= ANY
                return out or ANY
        return ANY

    def _local_assigns(self, fi, name):
        cache = getattr(fi, "_la", None)
        if cache is None:
            cache = fi._la = {}
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            cache.setdefault(t.id, []).append(n.value)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for x in t.elts:
                                if isinstance(x, ast.Name):
                                    cache.setdefault(x.id, []).append(None)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            cache.setdefault(x.id, []).append(None)
        return cache.get(name, [])


class _ModFn:
    """Pseudo function for evaluating module-level expressions."""
    cls = None
    params = ()
    is_bound = False
    node = ast.Module(body=[], type_ignores=[])

    def __init__(self, module):
        self.module = module
        self._la = {}


def mangle(ci, name):
    if ci is not None and name.startswith("__") and not name.endswith("__"):
        return f"_{ci.name.lstrip('_')}{name}"
    return name


def public_entries(prog):
    """Public operations: functions exported by the package and its public
    modules, and public methods / property accessors of exported classes."""
    out = []
    classes = []
    seen = set()
    roots = [m for m in prog.modules.values() if m.is_pkg or m.name == PKG + ".tools"]
    for m in sorted(roots, key=lambda x: x.name):
        if m.name.split(".")[-1].startswith("_"):
            continue
        names = [n for n, _ in m.all] if m.all is not None else []
        if m.name == PKG + ".tools" and not names:
            names = [k for k in m.symbols if not k.startswith("_")]
        for n in names:
            r = prog.resolve(m, n)
            if not r:
                continue
            if r[0] == "func" and r[1] not in seen:
                seen.add(r[1])
                out.append(r[1])
            elif r[0] == "class" and r[1] not in seen:
                seen.add(r[1])
                classes.append(r[1])
    # concrete classes that are not exported but handed out (filter banks, wavelets)
    for q in sorted(prog.classes):
        ci = prog.classes[q]
        if ci not in seen and not ci.is_enum and not ci.name.startswith("_") and not ci.subclasses \
                and not ci.module.name.split(".")[-1].startswith("_verif"):
            seen.add(ci)
            classes.append(ci)
    # base classes of exported classes are public too (inherited methods), done per concrete class
    return out, classes
