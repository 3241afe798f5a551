"""Value-flow terms: every expression is mapped to a hash-consed term over the
parameters and globals of the entry function (value numbering with joins)."""
import ast
import builtins

from .flow import Flow, Frame, State
from .program import (Assign, Binding, ClassInfo, Ext, FunctionInfo, ModRef, Param, bind_call, dotted, walk_scope)


class T:
    __slots__ = ("kind", "args", "uid", "_leaves", "depth")
    _table = {}

    def __new__(cls, kind, *args):
        key = (kind,) + tuple(("\0c", type(a).__name__, repr(a)) if isinstance(a, float) else
                              ("\0b", a) if isinstance(a, bool) else a for a in args)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.kind, t.args, t.uid = kind, args, len(cls._table)
            t._leaves = None
            t.depth = 1 + max([a.depth for a in _sub(args)] or [0])
            cls._table[key] = t
        return t

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


def _sub(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, (tuple, frozenset)):
            yield from _sub(a)


def show(t, n=0):
    if not isinstance(t, T):
        return repr(t)
    if n > 6:
        return "…"
    k, a = t.kind, t.args
    if k == "p":
        return a[0]
    if k == "c":
        return repr(a[1])
    if k == "g":
        return getattr(a[0], "short", None) or getattr(a[0], "name", str(a[0]))
    if k == "a":
        return f"{show(a[0], n+1)}.{a[1]}"
    if k == "i":
        return f"{show(a[0], n+1)}[{show(a[1], n+1)}]"
    if k == "f":
        return f"{show(a[0], n+1)}({', '.join([show(x, n+1) for x in a[1]] + [f'{q}={show(x, n+1)}' for q, x in a[2]])})"
    if k == "phi":
        return "{" + " | ".join(sorted(show(x, n+1) for x in a[0])) + "}"
    if k in ("tup", "lst"):
        return "(" + ", ".join(show(x, n+1) for x in a) + ")"
    return f"{k}<{', '.join(show(x, n+1) for x in a)}>"


def P(name):
    return T("p", name)


def C(v):
    return T("c", type(v).__name__, v)


NONE = C(None)
UNK = T("?", "unknown")


def is_const(t):
    return t.kind == "c"


def cval(t):
    return t.args[1]


def phi(items):
    s = set()
    for x in items:
        if x is None:
            continue
        if x.kind == "phi":
            s |= x.args[0]
        else:
            s.add(x)
    if len(s) == 1:
        return next(iter(s))
    if not s:
        return UNK
    if len(s) > 24:
        return T("big", leafset(s))
    return T("phi", frozenset(s))


def leafset(s):
    out = frozenset()
    for x in s:
        out |= leaves(x)
    return out


def alts(t):
    return t.args[0] if t.kind == "phi" else frozenset([t])


def leaves(t):
    """Parameter names a term is built from."""
    if t._leaves is None:
        if t.kind == "p":
            t._leaves = frozenset([t.args[0]])
        elif t.kind == "big":
            t._leaves = t.args[0]
        else:
            out = set()
            for a in _sub(t.args):
                out |= leaves(a)
            t._leaves = frozenset(out)
    return t._leaves


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in _sub(t.args):
        yield from subterms(a, seen)


class CallRec:
    __slots__ = ("node", "fi", "ctx", "func", "callee", "args", "kwargs", "star", "dstar", "binding", "result", "state", "pyb")

    def bound(self, name):
        return self.binding.get(name) if self.binding is not None else None

    def loc(self):
        return self.fi.loc(self.node)


class Closure:
    """A nested function or lambda with its defining state."""

    def __init__(self, fi, state):
        self.fi, self.state = fi, state


BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


class TermFlow(Flow):
    """Evaluates a function to terms; `calls` records every call with bound argument terms."""

    MAX_DEPTH = 8
    subst_eq = False            # replace a variable by the constant it was compared equal to

    def __init__(self, prog, inline=None, call_hook=None, strip=()):
        self.prog = prog
        self.inline = inline or (lambda callee, call, depth: False)
        self.call_hook = call_hook
        self.calls = {}
        self.closures = {}
        self.stack = []
        self.strip = strip

    # ---- lattice ------------------------------------------------------------
    def join_val(self, a, b):
        return phi([a, b])

    def widen_val(self, key, old, new, loop):
        if old == new:
            return old
        w = T("loop", str(key), getattr(loop, "lineno", 0))
        return phi([old, w]) if old.kind != "phi" or len(old.args[0]) < 6 else T("big", leaves(old) | leaves(new))

    def missing(self, k, v):
        return v

    def missing_heap(self, k, v):
        return phi([k, v]) if isinstance(k, T) else v

    def none(self):
        return NONE

    # ---- entry --------------------------------------------------------------
    def init_state(self, fi, args=None):
        st = State()
        for p in fi.params:
            if args is not None and p.name in args:
                st.vars[p.name] = args[p.name]
            else:
                st.vars[p.name] = P(p.name) if p.kind in ("pos", "kwonly") else T("p", ("*" if p.kind == "var" else "**") + p.name)
        return st

    def analyze(self, fi, args=None):
        self.stack.append(fi)
        fr = self.run(fi, self.init_state(fi, args))
        self.stack.pop()
        return fr

    def ret(self, fr):
        return phi([v for v, _, _ in fr.returns]) if fr.returns else UNK

    # ---- binding ------------------------------------------------------------
    def bind(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            st.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.bind(e.value, T("slice", v, i), st, fr, node)
                else:
                    self.bind(e, self.item(v, C(i), n), st, fr, node)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, st, fr)
            st.heap[T("a", b, t.attr)] = v
            self.on_store(t, b, v, st, fr)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, st, fr)
            i = self.expr(t.slice, st, fr)
            if b.kind == "dict" and i.kind == "c":
                nb = T("dict", tuple((k, x) for k, x in b.args[0] if k != i) + ((i, v),), *b.args[1:])
                self._rebind(t.value, nb, st, fr)
            else:
                st.heap[T("i", b, i)] = v
            self.on_store(t, b, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, st, fr, node)

    def _rebind(self, node, v, st, fr):
        if isinstance(node, ast.Name):
            st.vars[node.id] = v

    def on_store(self, target, base, value, st, fr):
        pass

    def augassign(self, s, st, fr):
        cur = self.expr(s.target, st, fr)
        v = self.expr(s.value, st, fr)
        self.bind(s.target, self.binop(BIN[type(s.op)], cur, v), st, fr, s)

    def iter_value(self, s, it, st, fr):
        return T("iter", it)

    def on_func_def(self, s, st, fr):
        fi = fr.fi.nested.get(s.name) if isinstance(fr.fi, FunctionInfo) else None
        if fi is None or fi.node is not s:
            fi = FunctionInfo(s.name, s, fr.fi.module, fr.fi.cls, fr.fi)
        st.vars[s.name] = self.closure(fi, st)

    def closure(self, fi, st):
        t = T("clo", fi)
        self.closures[t] = Closure(fi, st)
        return t

    # ---- conditions -----------------------------------------------------------
    def truth(self, t):
        if t.kind == "c":
            try:
                return bool(cval(t))
            except Exception:
                return None
        if t.kind in ("tup", "lst"):
            return len(t.args) > 0
        if t.kind in ("clo",) or (t.kind == "g"):
            return True
        return None

    def assume(self, test, truth, st, fr):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not truth, st, fr)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == truth
            if conj:
                for v in test.values:
                    st = self.assume(v, truth, st, fr)
                    if st is None:
                        return None
                return st
            alive = None
            cur = st
            for v in test.values:
                a = self.assume(v, truth, cur.copy(), fr)
                alive = self.join(alive, a)
                cur = self.assume(v, not truth, cur.copy(), fr)
                if cur is None:
                    break
            return alive
        v = self.quiet(test, st, fr)
        t = self.truth(v)
        if t is not None:
            return st if t == truth else None
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            l, r = test.left, test.comparators[0]
            eq = isinstance(op, (ast.Is, ast.Eq))
            ne = isinstance(op, (ast.IsNot, ast.NotEq))
            if eq or ne:
                holds = eq == truth
                rv = self.quiet(r, st, fr)
                lv = self.quiet(l, st, fr)
                if rv.kind == "c":
                    st = self.refine(l, lv, rv, holds, st, fr)
                elif lv.kind == "c":
                    st = self.refine(r, rv, lv, holds, st, fr)
        return st

    def refine(self, node, val, const, holds, st, fr):
        if st is None:
            return None
        isn = const is NONE
        if holds:
            if val.kind == "phi":
                keep = [x for x in val.args[0] if not (x.kind == "c" and x is not const) and not (isn and self.truth(x) is True)]
                if not keep:
                    return None
            if isinstance(node, ast.Name) and self.subst_eq:
                st.vars[node.id] = const
        else:
            if val.kind == "phi":
                keep = [x for x in val.args[0] if x is not const]
                if not keep:
                    return None
                if isinstance(node, ast.Name):
                    st.vars[node.id] = phi(keep)
        return st

    def quiet(self, node, st, fr):
        saved = self.calls
        self.calls = {}
        try:
            return self.expr(node, st.copy(), fr)
        finally:
            self.calls = saved

    # ---- expressions -------------------------------------------------------------
    def expr(self, node, st, fr):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.expr):
                    self.expr(c, st, fr)
            return T("?", type(node).__name__, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        return m(node, st, fr)

    def e_Constant(self, n, st, fr):
        return C(n.value)

    def e_Name(self, n, st, fr):
        if n.id in st.vars:
            return st.vars[n.id]
        return self.global_name(n.id, fr.fi)

    def global_name(self, name, fi):
        # closures see the defining frame's state via st.vars copies; else module level
        e = self.prog.resolve_name(name, fi.module, fi)
        return self.entity(e, name)

    def entity(self, e, name="?"):
        if e is None:
            return T("?", "name", name)
        d = self.prog.deref(e)
        if isinstance(d, Assign):
            if d.value is not None and isinstance(d.value, ast.Constant):
                return C(d.value.value)
            return T("g", d)
        return T("g", d)

    def e_Attribute(self, n, st, fr):
        b = self.expr(n.value, st, fr)
        return self.attr(b, n.attr, st, fr)

    def attr(self, b, name, st, fr):
        key = T("a", b, name)
        if key in st.heap:
            return st.heap[key]
        if b.kind == "g" and not isinstance(b.args[0], (Assign, FunctionInfo)):
            e = self.prog.member(b.args[0], name)
            if e is not None:
                if isinstance(e, tuple):
                    e = self.prog._norm(e)
                return self.entity(e, name)
        if b.kind == "phi":
            return phi([self.attr(x, name, st, fr) for x in b.args[0]])
        return key

    def e_Subscript(self, n, st, fr):
        b = self.expr(n.value, st, fr)
        i = self.expr(n.slice, st, fr)
        k = T("i", b, i)
        if k in st.heap:
            return st.heap[k]
        return self.item(b, i)

    def item(self, b, i, n=None):
        if b.kind in ("tup", "lst") and i.kind == "c" and isinstance(cval(i), int) and not isinstance(cval(i), bool):
            k = cval(i)
            if -len(b.args) <= k < len(b.args) and not any(x.kind == "star" for x in b.args):
                return b.args[k]
        if b.kind == "dict" and i.kind == "c":
            for k, v in reversed(b.args[0]):
                if k is i:
                    return v
        if b.kind == "phi":
            return phi([self.item(x, i, n) for x in b.args[0]])
        return T("i", b, i)

    def e_Slice(self, n, st, fr):
        f = lambda x: self.expr(x, st, fr) if x is not None else NONE
        return T("sl", f(n.lower), f(n.upper), f(n.step))

    def e_Tuple(self, n, st, fr):
        return T("tup", *self._elts(n.elts, st, fr))

    def e_List(self, n, st, fr):
        return T("lst", *self._elts(n.elts, st, fr))

    def e_Set(self, n, st, fr):
        return T("set", *self._elts(n.elts, st, fr))

    def _elts(self, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.expr(e.value, st, fr)
                if v.kind in ("tup", "lst"):
                    out.extend(v.args)
                else:
                    out.append(T("star", v))
            else:
                out.append(self.expr(e, st, fr))
        return out

    def e_Dict(self, n, st, fr):
        items, rest = [], []
        for k, v in zip(n.keys, n.values):
            vv = self.expr(v, st, fr)
            if k is None:
                rest.append(vv)
            else:
                items.append((self.expr(k, st, fr), vv))
        return self.mkdict(items, rest)

    def mkdict(self, items, rest):
        its, rs = [], []
        for r in rest:
            if r.kind == "dict":
                its.extend(r.args[0])
                rs.extend(r.args[1:])
            else:
                rs.append(r)
        return T("dict", tuple(its) + tuple(items), *rs)

    def e_Starred(self, n, st, fr):
        return T("star", self.expr(n.value, st, fr))

    def e_NamedExpr(self, n, st, fr):
        v = self.expr(n.value, st, fr)
        self.bind(n.target, v, st, fr, n)
        return v

    def e_UnaryOp(self, n, st, fr):
        v = self.expr(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return C(not t) if t is not None else T("op", "not", v)
        if v.kind == "c" and isinstance(cval(v), (int, float)):
            if isinstance(n.op, ast.USub):
                return C(-cval(v))
            if isinstance(n.op, ast.UAdd):
                return v
        return T("op", {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "~"}.get(type(n.op), "u"), v)

    def e_BinOp(self, n, st, fr):
        return self.binop(BIN.get(type(n.op), "?"), self.expr(n.left, st, fr), self.expr(n.right, st, fr))

    def binop(self, op, a, b):
        if a.kind == "c" and b.kind == "c":
            try:
                x, y = cval(a), cval(b)
                if op == "+":
                    return C(x + y)
                if op == "-":
                    return C(x - y)
                if op == "*":
                    return C(x * y)
            except Exception:
                pass
        if op == "+" and a.kind in ("tup", "lst") and b.kind == a.kind:
            return T(a.kind, *(a.args + b.args))
        if op in ("+", "*", "&", "|") and a.uid > b.uid and op != "+":
            a, b = b, a
        return T("op", op, a, b)

    def e_BoolOp(self, n, st, fr):
        vals = []
        cur = st.copy()
        isand = isinstance(n.op, ast.And)
        for v in n.values:
            if cur is None:
                break
            x = self.expr(v, cur, fr)
            t = self.truth(x)
            vals.append(x)
            if t is not None and t != isand:
                break
            cur = self.assume(v, isand, cur, fr)
        if len(vals) == 1:
            return vals[0]
        vs = [x for x in vals[:-1] if self.truth(x) is None] + [vals[-1]]
        if len(vs) == 1:
            return vs[0]
        return T("op", "and" if isand else "or", *vs)

    def e_Compare(self, n, st, fr):
        l = self.expr(n.left, st, fr)
        out = []
        for op, r in zip(n.ops, n.comparators):
            rv = self.expr(r, st, fr)
            out.append(self.compare(CMP[type(op)], l, rv))
            l = rv
        if len(out) == 1:
            return out[0]
        return T("op", "and", *out)

    def compare(self, op, a, b):
        if a.kind == "c" and b.kind == "c":
            x, y = cval(a), cval(b)
            try:
                r = {"==": lambda: x == y, "!=": lambda: x != y, "is": lambda: x is y or x == y and type(x) is type(y),
                     "is not": lambda: not (x is y or x == y and type(x) is type(y)), "<": lambda: x < y, "<=": lambda: x <= y,
                     ">": lambda: x > y, ">=": lambda: x >= y, "in": lambda: x in y, "not in": lambda: x not in y}[op]()
                return C(bool(r))
            except Exception:
                pass
        if op in ("is", "is not") and (a is NONE or b is NONE):
            o = b if a is NONE else a
            if o.kind in ("tup", "lst", "dict", "clo", "set") or (o.kind == "g" and not isinstance(o.args[0], Assign)):
                return C(op == "is not")
        if op == "in" and b.kind in ("tup", "lst", "set") and a.kind == "c" and all(x.kind == "c" for x in b.args):
            return C(any(x is a for x in b.args))
        if op == "not in" and b.kind in ("tup", "lst", "set") and a.kind == "c" and all(x.kind == "c" for x in b.args):
            return C(not any(x is a for x in b.args))
        return T("op", op, a, b)

    def e_IfExp(self, n, st, fr):
        self.expr(n.test, st, fr)
        a = self.assume(n.test, True, st.copy(), fr)
        b = self.assume(n.test, False, st.copy(), fr)
        vals = []
        if a is not None:
            vals.append(self.expr(n.body, a, fr))
        if b is not None:
            vals.append(self.expr(n.orelse, b, fr))
        return phi(vals)

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.expr(v.value, st, fr))
            else:
                parts.append(C(v.value))
        if all(p.kind == "c" for p in parts):
            return C("".join(str(cval(p)) for p in parts))
        return T("fstr", *parts)

    def e_Lambda(self, n, st, fr):
        fi = FunctionInfo("<lambda>", n, fr.fi.module, fr.fi.cls, fr.fi)
        return self.closure(fi, st)

    def _comp(self, n, st, fr, elts):
        s = st.copy()
        gens = []
        for g in n.generators:
            it = self.expr(g.iter, s, fr)
            self.bind(g.target, T("iter", it), s, fr, n)
            gens.append(it)
            for c in g.ifs:
                self.expr(c, s, fr)
                s2 = self.assume(c, True, s, fr)
                s = s2 if s2 is not None else s
        return [self.expr(e, s, fr) for e in elts], gens

    def e_ListComp(self, n, st, fr):
        v, g = self._comp(n, st, fr, [n.elt])
        return T("comp", v[0], *g)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n, st, fr):
        v, g = self._comp(n, st, fr, [n.key, n.value])
        return T("dcomp", v[0], v[1], *g)

    def e_Await(self, n, st, fr):
        return self.expr(n.value, st, fr)

    # ---- calls -------------------------------------------------------------
    def e_Call(self, n, st, fr):
        f = self.expr(n.func, st, fr)
        args, star = [], []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st, fr)
                if v.kind in ("tup", "lst") and not any(x.kind == "star" for x in v.args):
                    args.extend(v.args)
                else:
                    args.append(T("star", v))
            else:
                args.append(self.expr(a, st, fr))
        kwargs, dstar = {}, []
        for k in n.keywords:
            v = self.expr(k.value, st, fr)
            if k.arg is None:
                if v.kind == "dict" and all(x.kind == "c" for x, _ in v.args[0]):
                    for x, y in v.args[0]:
                        kwargs[cval(x)] = y
                    dstar.extend(v.args[1:])
                else:
                    dstar.append(v)
            else:
                kwargs[k.arg] = v
        return self.call(n, f, args, kwargs, dstar, st, fr)

    def call(self, n, f, args, kwargs, dstar, st, fr):
        if f.kind == "phi":
            return phi([self.call(n, x, args, kwargs, dstar, st, fr) for x in f.args[0]])
        rec = CallRec()
        rec.node, rec.fi, rec.ctx, rec.func = n, fr.fi, tuple(id(x) for x in self.stack), f
        rec.args, rec.kwargs, rec.dstar, rec.state = args, kwargs, dstar, st
        rec.callee = self.callee_of(f, n, st, fr)
        rec.binding = None
        rec.pyb = None
        if isinstance(rec.callee, FunctionInfo):
            skip = self.skips_self(f, rec.callee)
            rec.binding, rec.pyb = self.bind_terms(rec.callee, args, kwargs, dstar, skip)
        elif isinstance(rec.callee, ClassInfo):
            init = rec.callee.lookup("__init__") or rec.callee.lookup("__new__")
            if init is not None:
                rec.binding, rec.pyb = self.bind_terms(init, args, kwargs, dstar, True)
        self.calls[(rec.ctx, id(n), f.uid)] = rec
        rec.result = self.call_result(rec, st, fr)
        return rec.result

    def callee_of(self, f, n, st, fr):
        if f.kind == "g":
            e = f.args[0]
            if isinstance(e, (FunctionInfo, ClassInfo, Ext)):
                return e
            return None
        if f.kind == "clo":
            return f.args[0]
        if f.kind == "a" and f.args[0].kind in ("p",):
            r = self.self_method(f.args[0], f.args[1], fr)
            if r is not None:
                return r
        if f.kind == "a" and f.args[0].kind == "f" and f.args[0].args[0].kind == "g" and \
                getattr(f.args[0].args[0].args[0], "name", "") == "builtins.super":
            c = fr.fi.cls
            o = fr.fi
            while c is None and o.outer is not None:
                o = o.outer
                c = o.cls
            if c is not None:
                for b in c.mro()[1:]:
                    if f.args[1] in b.methods:
                        return b.methods[f.args[1]]
        return None

    def self_method(self, recv, name, fr):
        entry = self.stack[0] if self.stack else fr.fi
        o = entry
        while o.outer is not None:
            o = o.outer
        if o.cls is not None and o.params and not o.is_static and recv.args[0] == o.params[0].name:
            return o.cls.lookup(name)
        return None

    def skips_self(self, f, callee):
        if callee.cls is None or callee.outer is not None or callee.is_static:
            return False
        if f.kind == "g":
            # Class.method: classmethods bind, plain functions do not
            return callee.is_classmethod
        return True

    def bind_terms(self, callee, args, kwargs, dstar, skip):
        pos = [p for p in callee.params if p.kind == "pos"]
        if skip and pos:
            pos = pos[1:]
        names = {p.name for p in callee.params if p.kind in ("pos", "kwonly")}
        var = next((p for p in callee.params if p.kind == "var"), None)
        kw = next((p for p in callee.params if p.kind == "kw"), None)
        b, errs = {}, []
        extra, i, starred = [], 0, False
        for a in args:
            if a.kind == "star":
                starred = True
                extra.append(a)
                continue
            if not starred and i < len(pos):
                b[pos[i].name] = a
                i += 1
            else:
                extra.append(a)
                if not starred and var is None:
                    errs.append("too many positional arguments")
        if var is not None:
            b["*" + var.name] = T("tup", *extra)
        elif extra and starred:
            b["*"] = T("tup", *extra)
        ek = []
        for k, v in kwargs.items():
            if k in names:
                if k in b:
                    errs.append(f"multiple values for '{k}'")
                b[k] = v
            else:
                ek.append((C(k), v))
                if kw is None:
                    errs.append(f"unexpected keyword '{k}'")
        if kw is not None:
            b["**" + kw.name] = T("dict", tuple(ek), *dstar)
        elif dstar:
            b["**"] = T("dict", tuple(ek), *dstar)
        return b, errs

    def call_result(self, rec, st, fr):
        if self.call_hook is not None:
            r = self.call_hook(self, rec, st, fr)
            if r is not None:
                return r
        c = rec.callee
        if isinstance(c, FunctionInfo) and c not in self.stack and len(self.stack) < self.MAX_DEPTH and \
                (rec.func.kind == "clo" or self.inline(c, rec, len(self.stack))):
            return self.do_inline(rec, st, fr)
        if isinstance(c, Ext):
            r = self.ext_call(c.name, rec)
            if r is not None:
                return r
        return T("f", rec.func, tuple(rec.args), tuple(sorted(rec.kwargs.items())) + tuple(("**", d) for d in rec.dstar))

    def ext_call(self, name, rec):
        if name == "builtins.dict" and not any(a.kind == "star" for a in rec.args):
            rest = list(rec.args) + list(rec.dstar)
            return self.mkdict([(C(k), v) for k, v in rec.kwargs.items()], rest)
        if name in ("builtins.tuple", "builtins.list") and len(rec.args) == 1 and rec.args[0].kind in ("tup", "lst"):
            return T("tup" if name.endswith("tuple") else "lst", *rec.args[0].args)
        return None

    def default_term(self, p, callee):
        if p.default is None:
            return UNK
        if isinstance(p.default, ast.Constant):
            return C(p.default.value)
        st = State()
        fr = Frame(callee)
        saved = self.calls
        self.calls = {}
        try:
            return self.expr(p.default, st, fr)
        finally:
            self.calls = saved

    def do_inline(self, rec, st, fr):
        c = rec.callee
        args = {}
        b = rec.binding or {}
        skip = self.skips_self(rec.func, c) if rec.func.kind != "clo" else False
        for idx, p in enumerate(c.params):
            if p.kind in ("var", "kw"):
                key = ("*" if p.kind == "var" else "**") + p.name
                args[p.name] = b.get(key, T("tup") if p.kind == "var" else T("dict", ()))
            elif skip and idx == 0:
                args[p.name] = rec.func.args[0] if rec.func.kind == "a" else P(p.name)
            elif p.name in b:
                args[p.name] = b[p.name]
            elif b.get("*") is not None or b.get("**") is not None:
                args[p.name] = phi([self.default_term(p, c)] + [x for x in (b.get("*"), b.get("**")) if x is not None])
            else:
                args[p.name] = self.default_term(p, c)
        s = State(heap=st.heap, aux=st.aux)
        if rec.func.kind == "clo":
            s.vars.update(self.closures[rec.func].state.vars)
            # later rebindings of captured variables
            if c.outer is fr.fi:
                s.vars.update({k: v for k, v in st.vars.items()})
        s.heap = dict(st.heap)
        s.vars.update(args)
        self.stack.append(c)
        ifr = self.run(c, s)
        self.stack.pop()
        out = None
        for _, _, rs in ifr.returns:
            out = self.join(out, State({}, rs.heap, rs.aux))
        if out is not None:
            st.heap = out.heap
            st.aux = out.aux
        self.on_inlined(rec, ifr, st, fr)
        if not ifr.returns:
            st.dead = True
            return UNK
        return phi([v for v, _, _ in ifr.returns])

    def on_inlined(self, rec, ifr, st, fr):
        pass
