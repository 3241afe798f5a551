"""Whole-program model of the analysed package: modules, classes, functions,
name resolution and call binding.  Pure AST; nothing is imported or executed."""
import ast
import builtins
import os
from dataclasses import dataclass, field
from typing import Optional


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (vanished anchor etc.)."""


class Param:
    __slots__ = ("name", "kind", "default", "annotation", "index")

    def __init__(self, name, kind, default, annotation, index):
        self.name, self.kind, self.default = name, kind, default
        self.annotation, self.index = annotation, index

    @property
    def required(self):
        return self.default is None and self.kind in ("pos", "kwonly")

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


def params_of(node):
    a = node.args
    out = []
    pos = list(a.posonlyargs) + list(a.args)
    nd = len(pos) - len(a.defaults)
    for i, p in enumerate(pos):
        out.append(Param(p.arg, "pos", a.defaults[i - nd] if i >= nd else None, p.annotation, len(out)))
    if a.vararg:
        out.append(Param(a.vararg.arg, "var", None, a.vararg.annotation, len(out)))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append(Param(p.arg, "kwonly", d, p.annotation, len(out)))
    if a.kwarg:
        out.append(Param(a.kwarg.arg, "kw", None, a.kwarg.annotation, len(out)))
    return out


class FunctionInfo:
    kind = "func"

    def __init__(self, name, node, module, cls=None, outer=None):
        self.name, self.node, self.module, self.cls, self.outer = name, node, module, cls, outer
        self.params = params_of(node)
        self._imports = None
        self._locals = None
        self._nested = None

    @property
    def qualname(self):
        base = self.outer.qualname if self.outer else (self.cls.qualname if self.cls else self.module.name)
        return f"{base}.{self.name}"

    @property
    def short(self):
        q = self.qualname
        return q[len("vectorbt."):] if q.startswith("vectorbt.") else q

    @property
    def path(self):
        return self.module.relpath

    def loc(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return f"{self.module.relpath}:{n.lineno}"

    def param(self, name):
        for p in self.params:
            if p.name == name:
                return p
        return None

    @property
    def param_names(self):
        return [p.name for p in self.params]

    @property
    def decorators(self):
        out = []
        for d in getattr(self.node, "decorator_list", []):
            t = d.func if isinstance(d, ast.Call) else d
            out.append(dotted(t) or "")
        return out

    def has_decorator(self, *names):
        return any(d.split(".")[-1] in names for d in self.decorators)

    @property
    def is_property(self):
        return self.has_decorator("property", "cached_property", "class_or_instanceproperty", "classproperty")

    @property
    def is_static(self):
        return self.has_decorator("staticmethod")

    @property
    def is_classmethod(self):
        return self.has_decorator("classmethod", "class_or_instancemethod")

    @property
    def is_njit(self):
        return self.has_decorator("njit", "jit")

    @property
    def is_method(self):
        return self.cls is not None and not self.is_static and self.outer is None

    @property
    def imports(self):
        """Names bound by import statements inside the function."""
        if self._imports is None:
            self._imports = {}
            for n in walk_scope(self.node):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._imports.update(import_bindings(n, self.module))
        return self._imports

    @property
    def local_names(self):
        if self._locals is None:
            s = set(self.param_names)
            for n in walk_scope(self.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not self.node:
                    s.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
            self._locals = s
        return self._locals

    @property
    def nested(self):
        if self._nested is None:
            self._nested = {}
            for n in walk_scope(self.node):
                if isinstance(n, ast.FunctionDef) and n is not self.node:
                    self._nested[n.name] = FunctionInfo(n.name, n, self.module, self.cls, self)
        return self._nested

    def __repr__(self):
        return f"<func {self.qualname}>"


class ClassInfo:
    kind = "class"

    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.methods = {}
        self.attrs = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = FunctionInfo(s.name, s, module, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value
        self._mro = None

    @property
    def qualname(self):
        return f"{self.module.name}.{self.name}"

    @property
    def short(self):
        return self.qualname[len("vectorbt."):] if self.qualname.startswith("vectorbt.") else self.qualname

    def loc(self, node=None):
        n = node if node is not None else self.node
        return f"{self.module.relpath}:{n.lineno}"

    @property
    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.module.program.resolve(b, self.module)
            if isinstance(r, ClassInfo):
                out.append(r)
        return out

    @property
    def is_namedtuple(self):
        for b in self.node.bases:
            d = dotted(b) or ""
            if d.split(".")[-1] == "NamedTuple":
                return True
        return False

    def mro(self):
        if self._mro is None:
            seen, out = set(), []
            # C3-ish: depth first keeping last occurrence
            def lin(c):
                res = [c]
                seqs = [lin(b) for b in c.bases] + [list(c.bases)]
                while any(seqs):
                    seqs = [s for s in seqs if s]
                    for s in seqs:
                        h = s[0]
                        if not any(h in t[1:] for t in seqs):
                            break
                    else:
                        h = seqs[0][0]
                    res.append(h)
                    seqs = [[x for x in s if x is not h] for s in seqs]
                return res
            self._mro = lin(self)
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_subclass(self, qual):
        return any(c.qualname == qual or c.name == qual for c in self.mro())

    def __repr__(self):
        return f"<class {self.qualname}>"


@dataclass(frozen=True)
class Ext:
    """Something outside the package, by dotted name."""
    name: str
    kind = "ext"


@dataclass(frozen=True)
class ModRef:
    name: str
    kind = "mod"


class Assign:
    kind = "assign"

    def __init__(self, name, value, module, stmt):
        self.name, self.value, self.module, self.stmt = name, value, module, stmt


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return f"{b}.{node.attr}" if b else None
    return None


SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def walk_scope(node):
    """Walk a function's own body, yielding nested scopes' nodes but not entering them."""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else [node.body]
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        todo = list(node.body)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, SCOPES):
            continue
        todo[0:0] = list(ast.iter_child_nodes(n))


def walk_all(node):
    return ast.walk(node)


def import_bindings(n, module):
    out = {}
    prog = module.program
    if isinstance(n, ast.Import):
        for a in n.names:
            if a.asname:
                out[a.asname] = prog.mod_or_ext(a.name)
            else:
                out[a.name.split(".")[0]] = prog.mod_or_ext(a.name.split(".")[0])
    else:
        base = n.module or ""
        if n.level:
            parts = module.name.split(".")
            if not module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = ".".join(parts + ([n.module] if n.module else []))
        for a in n.names:
            if a.name == "*":
                m = prog.modules.get(base)
                if m is not None:
                    for k in m.bindings():
                        out[k] = ("from", base, k)
                continue
            out[a.asname or a.name] = ("from", base, a.name)
    return out


class Module:
    def __init__(self, program, name, relpath, src, is_pkg=False):
        self.program, self.name, self.relpath, self.src, self.is_pkg = program, name, relpath, src, is_pkg
        self.tree = ast.parse(src)
        for p in ast.walk(self.tree):
            for c in ast.iter_child_nodes(p):
                c._parent = p
        self._bind = None
        self.functions = {}
        self.classes = {}

    def bindings(self):
        if self._bind is None:
            self._bind = {}
            self._collect(self.tree.body)
        return self._bind

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FunctionInfo(s.name, s, self)
                self.functions[s.name] = f
                self._bind[s.name] = f
            elif isinstance(s, ast.ClassDef):
                c = ClassInfo(s.name, s, self)
                self.classes[s.name] = c
                self._bind[s.name] = c
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                self._bind.update(import_bindings(s, self))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self._bind[t.id] = Assign(t.id, s.value, self, s)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self._bind[s.target.id] = Assign(s.target.id, s.value, self, s)
            elif isinstance(s, ast.If):
                self._collect(s.body)
                self._collect(s.orelse)
            elif isinstance(s, ast.Try):
                self._collect(s.body)
                for h in s.handlers:
                    # handlers must not shadow the main binding
                    saved = dict(self._bind)
                    self._collect(h.body)
                    self._bind.update(saved)
            elif isinstance(s, ast.With):
                self._collect(s.body)


class Program:
    def __init__(self, sources, pkg="vectorbt"):
        """sources: {relpath: text}"""
        self.pkg = pkg
        self.modules = {}
        self.sources = sources
        for rel, src in sorted(sources.items()):
            if not rel.endswith(".py"):
                continue
            parts = rel[:-3].split("/")
            is_pkg = parts[-1] == "__init__"
            if is_pkg:
                parts = parts[:-1]
            name = ".".join(parts)
            try:
                self.modules[name] = Module(self, name, rel, src, is_pkg)
            except SyntaxError as e:
                raise AnalysisError(f"cannot parse {rel}: {e}")
        for m in self.modules.values():
            m.bindings()

    @classmethod
    def load(cls, root="/repo", pkg="vectorbt"):
        src = {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisError(f"{base} not found")
        for d, dn, fn in os.walk(base):
            dn[:] = [x for x in dn if x != "__pycache__"]
            for f in fn:
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    with open(p, encoding="utf-8") as fh:
                        src[os.path.relpath(p, root)] = fh.read()
        return cls(src, pkg)

    # -- lookup ---------------------------------------------------------
    def mod_or_ext(self, name):
        return ModRef(name) if name in self.modules else Ext(name)

    def get(self, qual):
        """Entity by qualified name, e.g. 'vectorbt.generic.nb.fshift_nb' or Class.method."""
        parts = qual.split(".")
        for k in range(len(parts), 0, -1):
            mn = ".".join(parts[:k])
            if mn in self.modules:
                cur = ModRef(mn)
                for p in parts[k:]:
                    cur = self.member(cur, p)
                    if cur is None:
                        return None
                return cur
        return None

    def require(self, qual):
        e = self.get(qual)
        if e is None:
            raise AnalysisError(f"anchor {qual} not found in current source")
        return e

    def _norm(self, b, depth=0):
        """Follow ('from', mod, name) bindings."""
        while isinstance(b, tuple) and depth < 20:
            _, mod, name = b
            depth += 1
            m = self.modules.get(mod)
            if m is None:
                return Ext(f"{mod}.{name}")
            if name in m.bindings():
                b = m.bindings()[name]
            elif f"{mod}.{name}" in self.modules:
                return ModRef(f"{mod}.{name}")
            else:
                return Ext(f"{mod}.{name}")
        return b

    def member(self, ent, attr):
        if isinstance(ent, ModRef):
            m = self.modules.get(ent.name)
            if m and attr in m.bindings():
                return self._norm(m.bindings()[attr])
            if f"{ent.name}.{attr}" in self.modules:
                return ModRef(f"{ent.name}.{attr}")
            return None
        if isinstance(ent, ClassInfo):
            f = ent.lookup(attr)
            if f:
                return f
            a = ent.lookup_attr(attr)
            if a:
                return Assign(attr, a[1], a[0].module, None)
            return None
        if isinstance(ent, Ext):
            return Ext(f"{ent.name}.{attr}")
        return None

    def resolve_name(self, name, module, func=None):
        f = func
        while f is not None:
            if name in f.imports:
                return self._norm(f.imports[name])
            if name in f.nested:
                return f.nested[name]
            if name in f.local_names:
                return None  # a local variable
            f = f.outer
        b = module.bindings().get(name)
        if b is not None:
            return self._norm(b)
        if hasattr(builtins, name):
            return Ext(f"builtins.{name}")
        return None

    def resolve(self, node, module, func=None):
        if isinstance(node, ast.Name):
            return self.resolve_name(node.id, module, func)
        if isinstance(node, ast.Attribute):
            # self.method
            if isinstance(node.value, ast.Name) and func is not None:
                o = func
                while o.outer is not None:
                    o = o.outer
                if o.cls is not None and o.params and not o.is_static and node.value.id == o.params[0].name:
                    return o.cls.lookup(node.attr)
            b = self.resolve(node.value, module, func)
            if b is None:
                return None
            if isinstance(b, Assign):
                return None
            return self.member(b, node.attr)
        return None

    def deref(self, ent, depth=0):
        """Follow module-level aliases (x = y) to a function/class if possible."""
        while isinstance(ent, Assign) and depth < 10 and ent.value is not None:
            depth += 1
            v = ent.value
            if isinstance(v, (ast.Name, ast.Attribute)):
                nxt = self.resolve(v, ent.module)
                if nxt is None:
                    return ent
                ent = nxt
            elif isinstance(v, ast.Call) and v.args and ((dotted(v.func) or "").split(".")[-1] in ("njit", "partial", "jit") or isinstance(
                    v.func, ast.Call) and (dotted(v.func.func) or "").split(".")[-1] in ("njit", "jit")):
                nxt = self.resolve(v.args[0], ent.module)
                if nxt is None:
                    return ent
                ent = nxt
            else:
                return ent
        return ent

    # -- iteration ------------------------------------------------------
    def all_functions(self, nested=False):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
                if nested:
                    yield from self._nested(f)
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                    if nested:
                        yield from self._nested(f)

    def _nested(self, f):
        for g in f.nested.values():
            yield g
            yield from self._nested(g)

    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def subclasses(self, qual):
        for c in self.all_classes():
            if c.is_subclass(qual):
                yield c

    def owner_function(self, module, node):
        """FunctionInfo of the innermost function around node (or None)."""
        chain = []
        n = getattr(node, "_parent", None)
        while n is not None:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                chain.append(n)
            n = getattr(n, "_parent", None)
        chain.reverse()
        cur, cls = None, None
        for n in chain:
            if isinstance(n, ast.ClassDef):
                if cur is None:
                    cls = module.classes.get(n.name)
                    if cls is None or cls.node is not n:
                        cls = ClassInfo(n.name, n, module)
                else:
                    cls = ClassInfo(n.name, n, module)
            else:
                if cur is not None and n.name in cur.nested and cur.nested[n.name].node is n:
                    cur = cur.nested[n.name]
                elif cls is not None and n.name in cls.methods and cls.methods[n.name].node is n:
                    cur = cls.methods[n.name]
                elif cur is None and module.functions.get(n.name) is not None and module.functions[n.name].node is n:
                    cur = module.functions[n.name]
                else:
                    cur = FunctionInfo(n.name, n, module, cls, cur)
        return cur

    def digest(self):
        import hashlib
        h = hashlib.sha256()
        for k in sorted(self.sources):
            h.update(k.encode())
            h.update(self.sources[k].encode())
        return h.hexdigest()[:16]


# -- call binding --------------------------------------------------------
class Binding:
    """Result of binding a call's arguments to a callee's parameters."""

    def __init__(self):
        self.args = {}          # param name -> expr
        self.extra_pos = []     # into *args
        self.extra_kw = {}      # into **kwargs
        self.star = []          # starred exprs at call site
        self.dstar = []         # ** exprs at call site
        self.errors = []


def bind_call(call, callee, skip_self=False):
    """callee: FunctionInfo (or list of Param)."""
    params = callee if isinstance(callee, list) else callee.params
    b = Binding()
    pos = [p for p in params if p.kind == "pos"]
    if skip_self and pos:
        pos = pos[1:]
    names = {p.name for p in params if p.kind in ("pos", "kwonly")}
    has_var = any(p.kind == "var" for p in params)
    has_kw = any(p.kind == "kw" for p in params)
    i = 0
    starred = False
    for a in call.args:
        if isinstance(a, ast.Starred):
            b.star.append(a.value)
            starred = True
            continue
        if starred:
            b.extra_pos.append(a)
            continue
        if i < len(pos):
            b.args[pos[i].name] = a
            i += 1
        elif has_var:
            b.extra_pos.append(a)
        else:
            b.errors.append(f"too many positional arguments ({len(call.args)})")
            b.extra_pos.append(a)
    for k in call.keywords:
        if k.arg is None:
            b.dstar.append(k.value)
        elif k.arg in names:
            if k.arg in b.args:
                b.errors.append(f"multiple values for argument '{k.arg}'")
            b.args[k.arg] = k.value
        elif has_kw:
            b.extra_kw[k.arg] = k.value
        else:
            b.errors.append(f"unexpected keyword argument '{k.arg}'")
            b.extra_kw[k.arg] = k.value
    return b


def const(node):
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
        return -node.operand.value
    return None


def src(node, n=90):
    try:
        s = ast.unparse(node)
    except Exception:
        s = type(node).__name__
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n - 3] + "..."
