"""Python-level functions compared with reviewed references.

A reference file (vsa/ref/*.py) holds reviewed definitions of functions and methods of one module (methods as
`method__of__Class`, functions as `name__ref`).  Code and reference are both reduced to gated terms, effects and loop recurrences (kernel.py) with the
calls the reference makes kept as uninterpreted calls and every other function of the library inlined, so that a helper
extracted from the code is looked through.  Nothing is executed.
"""
import ast
import os

from .gated import AND, C, FALSE, ITE, NONE, NOT, OR, P, T, TRUE, cval, subterms, spec_module
from .kernel import NEUTRAL, VOCAB, Comparer, KFlow, Kernel, again, flat, heads, opposite, rewrite
from .flow import Frame, State
from .program import AnalysisError, ClassInfo, Ext, FunctionInfo

DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref")


SNAPSHOT = frozenset(open(os.path.join(DIR, "_names.txt")).read().split()) if os.path.exists(os.path.join(DIR, "_names.txt")) else frozenset()

def empty_container(t):
    return t.kind in ("lst", "tup") and not t.args or t.kind == "dict" and not flat(t.args) or \
        t.kind == "f" and t.args[0].kind == "g" and getattr(t.args[0].args[0], "name", "") in ("builtins.dict", "builtins.list", "builtins.tuple", "builtins.set") and not t.args[1] and not t.args[2]


def respelled(a, b):
    """Two ways to hand the same things to the same function, or a value and the empty container that stands for it when falsy."""
    if a.kind == "f" and b.kind == "f":
        last = lambda t: getattr(t.args[0].args[0], "name", "?").split(".")[-1] if t.args[0].kind == "g" else t.args[0].args[1] if t.args[0].kind == "a" else None
        if last(a) is not None and last(a) == last(b):
            repo = lambda t: isinstance(t.args[0].args[0], FunctionInfo) if t.args[0].kind == "g" else False
            if last(a) == "unique" and a.args[0].kind == b.args[0].kind == "g" and a.args[0] is not b.args[0]:
                return False        # NumPy sorts, pandas does not
            return a.args[0] is not b.args[0] or len(a.args[1]) + len(a.args[2]) == len(b.args[1]) + len(b.args[2]) and len(a.args[1]) != len(b.args[1]) and not repo(a)
    for x, y in ((a, b), (b, a)):
        if x.kind == "c" and isinstance(cval(x), int) and cval(x) < 0 and y.kind != "c" and any(z.kind == "a" and z.args[1] in ("shape", "nlevels", "ndim", "size") for z in subterms(y)):
            return True         # counted from the end
        if empty_container(x) and y.kind in ("p", "a", "i", "lv", "after"):
            return True
    return False


def last_name(t):
    return getattr(t.args[0].args[0], "name", "?").split(".")[-1]


def ordering(t):
    return t.kind == "f" and t.args[0].kind == "g" and last_name(t) in ("sorted", "reversed")


def same_value(t):
    """What a conversion converts."""
    while t.kind == "f" and not t.args[2]:
        if t.args[0].kind == "g" and len(t.args[1]) == 1 and last_name(t) in ("asarray", "array", "list", "tuple", "copy"):
            t = t.args[1][0]
        elif t.args[0].kind == "a" and t.args[0].args[1] in ("tolist", "copy") and not t.args[1]:
            t = t.args[0].args[0]
        else:
            break
    return t


ANTONYMS = [{"repeat", "tile"}, {"hstack", "vstack"}, {"any", "all"}, {"min", "max"}, {"nanmin", "nanmax"}, {"argmin", "argmax"}, {"floor", "ceil"}, {"floor", "round"}, {"ceil", "round"},
            {"cumsum", "cumprod"}, {"sum", "mean"}, {"nansum", "nanmean"}, {"logical_and", "logical_or"}, {"repeat_index", "tile_index"}, {"isnan", "isfinite"},
            {"greater", "less"}, {"ffill", "bfill"}, {"first", "last"}, {"var", "std"}, {"mean", "median"}, {"zeros", "ones"}, {"combinations", "product"}]


def opposed(a, b):
    """The same arguments given to a function and to its counterpart; slices with and without a step; an option and the default it falls back to."""
    if a.kind == b.kind == "f" and a.args[1:] == b.args[1:]:
        names = {last_name(t) if t.args[0].kind == "g" else t.args[0].args[1] if t.args[0].kind == "a" else None for t in (a, b)}
        if names in ANTONYMS and a.args[0].kind == b.args[0].kind and (a.args[0].kind == "g" or a.args[0].args[0] is b.args[0].args[0]):
            return True
    if a.kind == b.kind == "sl":
        steps = [t.args[2] for t in (a, b)]
        if sum(x.kind == "c" and cval(x) in (None, 1) for x in steps) == 1:
            return True
    for x, y in ((a, b), (b, a)):
        if y.kind == "f" and y.args[0].kind == "a" and y.args[0].args[1] in ("pop", "get") and len(y.args[1]) == 2 and y.args[1][0].kind == "c" and y.args[1][1] is x:
            return True
    return False


def branches(t):
    return [z for x in t.args[1:] for z in branches(x)] if t.kind == "ite" else [t]


def definite_py(a, b, shared=frozenset()):
    """A difference that cannot come from two ways of writing the same value."""
    if opposed(a, b):
        return True
    if respelled(a, b):
        return False
    ha, hb = heads(a), heads(b)
    marks = {"?comp", "?dcomp", "?fstr", "?clo"}
    bad = {h for h in ha | hb if h.startswith("?")}
    if bad - marks or (bad and {h for h in ha if h.startswith("?")} != {h for h in hb if h.startswith("?")}):
        return False
    d = {h.lstrip(".") for h in ha ^ hb}
    if d & {h.lstrip(".") for h in ha} & {h.lstrip(".") for h in hb}:
        return False        # np.f(x) and x.f()
    if d <= VOCAB:
        return True
    if d & NEUTRAL:
        if any(x.kind == "g" and isinstance(x.args[0], ClassInfo) and y.kind == "f" and d == {"type"} for x, y in ((a, b), (b, a))):
            return True         # a class, and the class of some object
        if any(z is not y and z.kind == "f" and z.args[0].kind == "g" and z.args[1] and z.args[1][0] is same_value(y) and (not last_name(z) in NEUTRAL or last_name(z) == "upd")
               for x, y in ((a, b), (b, a)) for z in branches(x)):
            return True         # applied on one side (or in a case of it), left as it was on the other
        if any(x.kind == "f" and x.args[0].kind == "a" and x.args[0].args[1] in ("lower", "upper", "strip") and x.args[0].args[0] is y for x, y in ((a, b), (b, a))):
            return True
        if any(ordering(x) and y.kind == "f" and y.args[0].kind == "g" and last_name(y) in ("list", "tuple") and x.args[1][:1] == y.args[1] for x, y in ((a, b), (b, a))):
            return True         # ordered on one side, left in order on the other
        return bool(d & {h.lstrip(".") for h in shared})       # still called by both, but not for this value
    return True


MUTATORS = {"append", "extend", "insert", "update", "add", "pop", "remove", "clear", "sort", "reverse", "setdefault", "popitem", "discard"}


def CAT():
    return KFlow.extg(KFlow, Ext("cat"))


class PFlow(KFlow):
    """Calls to functions known at review time stay calls; anything newer is looked through."""
    fresh_copies = False
    split = frozenset()     # known functions to look through as well

    def default_inline(self, callee, rec, depth):
        if callee.outer is not None:
            return True
        self.seen.add(callee.qualname)
        if callee.qualname in self.split:
            return depth < 3
        return callee.qualname not in SNAPSHOT and depth < 6

    def _comp(self, n, st, fr, elts):
        s = st.copy()
        gens = []
        for g in n.generators:
            it = self.expr(g.iter, s, fr)
            self.bind(g.target, T("iter", it), s, fr, n)
            gens.append(it)
            for c in g.ifs:
                gens.append(T("if", self.boolean(self.expr(c, s, fr))))
        return [self.expr(e, s, fr) for e in elts], gens

    # ---- what a helper does to a container it is handed happens to the caller's container ----
    @staticmethod
    def grown(fi):
        """Names a function updates in place through container methods and never assigns (its parameters and captured names)."""
        r = getattr(fi, "_grown", None)
        if r is None:
            stored = {n.id for n in ast.walk(fi.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            r = fi._grown = ({n.func.value.id for n in ast.walk(fi.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                              n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name)} |
                             {n.value.id for n in ast.walk(fi.node) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and
                              isinstance(n.value, ast.Name)}) - stored
        return r

    def handed(self, fi, call, bound):
        """Caller's names whose containers a call of fi updates: (caller's name, callee's name)."""
        grown = self.grown(fi)
        out = []
        names = [p.name for p in fi.params if p.kind in ("pos", "kwonly")]
        pos = [p.name for p in fi.params if p.kind == "pos"][1 if bound else 0:]
        for i, a in enumerate(call.args):
            if isinstance(a, ast.Name) and i < len(pos) and pos[i] in grown:
                out.append((a.id, pos[i]))
        for k in call.keywords:
            if isinstance(k.value, ast.Name) and k.arg in names and k.arg in grown:
                out.append((k.value.id, k.arg))
        if fi.outer is not None:
            out += [(n, n) for n in grown if n not in {p.name for p in fi.params}]
        return out

    def on_inlined(self, rec, ifr, st, fr):
        super().on_inlined(rec, ifr, st, fr)
        if not isinstance(rec.node, ast.Call) or isinstance(rec.callee.node, ast.Lambda):
            return
        for mine, theirs in self.handed(rec.callee, rec.node, self.skips_self(rec.func, rec.callee) if rec.func.kind != "clo" else False):
            if mine in st.vars:
                st.vars[mine] = self.out_value(ifr, lambda r: r[2].vars.get(theirs, st.vars[mine]))

    def guess(self, call):
        """The function a call names, syntactically."""
        f, fi = call.func, self.stack[-1] if self.stack else None
        if fi is None:
            return None, False
        if isinstance(f, ast.Name):
            o = fi
            while o is not None:
                if f.id in o.nested:
                    return o.nested[f.id], False
                o = o.outer
            return fi.module.functions.get(f.id), False
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and fi.cls is not None:
            m = fi.cls.methods.get(f.attr)
            return m, m is not None and not m.is_static
        return None, False

    # ---- containers built locally are values: x.append(v) is x = x + [v] ----
    def assigned(self, body):
        names = super().assigned(body)
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
                    names.add(n.func.value.id)
                if isinstance(n, ast.Call):
                    fi, bound = self.guess(n)
                    if fi is not None and (fi.outer is not None or fi.qualname not in SNAPSHOT) and not isinstance(fi.node, ast.Lambda):
                        sub = {m.value.id for m in ast.walk(fi.node) if isinstance(m, ast.Subscript) and isinstance(m.ctx, ast.Store) and isinstance(m.value, ast.Name)}
                        names.update(a for a, b in self.handed(fi, n, bound) if b not in sub)
        return names

    def kloop(self, lp, s, st, fr, names, binder, test):
        """Items set in a dict made in this call change its value from one iteration to the next."""
        names = set(names)
        for x in s.body:
            for n in ast.walk(x):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and self.isdict(st.vars.get(n.value.id)):
                    names.add(n.value.id)
                elif isinstance(n, ast.Call):
                    fi, bound = self.guess(n)
                    if fi is not None and (fi.outer is not None or fi.qualname not in SNAPSHOT) and not isinstance(fi.node, ast.Lambda):
                        names.update(a for a, _ in self.handed(fi, n, bound) if self.isdict(st.vars.get(a)))
        return super().kloop(lp, s, st, fr, names, binder, test)

    def isdict(self, t, depth=0):
        if t is None:
            return False
        k = t.kind
        if k in ("dict", "dcomp") or k == "p" and isinstance(t.args[0], str) and t.args[0].startswith("**"):
            return True
        if k == "ite":
            return self.isdict(t.args[1], depth) and self.isdict(t.args[2], depth)
        if k == "f" and t.args[0].kind == "g":
            n = getattr(t.args[0].args[0], "name", "")
            return n in ("builtins.dict", "collections.OrderedDict", "collections.defaultdict") or n == "upd" and self.isdict(t.args[1][0], depth)
        if k in ("lv", "after") and depth < 5:
            i = getattr(self.loops[t.args[1]], "inits", {}).get(t.args[0])
            return self.isdict(i, depth + 1)
        return False

    def bind(self, t, v, st, fr, node):
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and self.isdict(st.vars.get(t.value.id)):
            b, i = st.vars[t.value.id], self.expr(t.slice, st, fr)
            if b.kind != "dict" or i.kind != "c":
                st.vars[t.value.id] = T("dict", ((i, v),)) if b is T("dict", ()) else T("f", self.extg(Ext("upd")), (b, C("__setitem__"), i, v), ())
                self.on_store(t, b, v, st, fr)
                return
        super().bind(t, v, st, fr, node)

    def element(self, it, iv):
        if it.kind == "f" and it.args[0].kind == "g" and getattr(it.args[0].args[0], "name", "") == "builtins.zip" and not it.args[2] and not any(x.kind == "star" for x in it.args[1]):
            return T("tup", *[self.item(x, iv) for x in it.args[1]])
        return self.item(it, iv)

    def boolean(self, t):
        """A value as a condition: a length is true when it is not zero."""
        if t.kind == "op" and t.args[0] in ("and", "or"):
            return (AND if t.args[0] == "and" else OR)(*[self.boolean(x) for x in t.args[1:]])
        if t.kind == "op" and t.args[0] == "not":
            return NOT(self.boolean(t.args[1]))
        if t.kind == "i" and t.args[0].kind == "a" and t.args[0].args[1] == "shape" and t.args[1].kind == "c" or t.kind == "a" and t.args[1] in ("ndim", "size", "nlevels"):
            return self.compare("!=", t, C(0))
        return t

    def e_BoolOp(self, n, st, fr):
        if isinstance(n.op, ast.Or) and len(n.values) == 2 and isinstance(n.values[1], (ast.Dict, ast.List, ast.Tuple, ast.Constant, ast.Call)):
            a = self.expr(n.values[0], st, fr)
            if not self.isbool(a):
                c = self.boolean(a)
                b = self.expr(n.values[1], self.with_fact(st.copy(), NOT(c)), fr)
                if empty_container(b) or b.kind == "c" and b not in (TRUE, FALSE):
                    return ITE(c, a, b)     # a value and what stands for it when it is empty
        return super().e_BoolOp(n, st, fr)

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            v = self.boolean(self.expr(n.operand, st, fr))
            t = self.truth(v)
            return C(not t) if t is not None else NOT(v)
        return super().e_UnaryOp(n, st, fr)

    def compare(self, op, a, b):
        if op in ("==", "!=") and (a in (TRUE, FALSE) or b in (TRUE, FALSE)):
            x, y = (b, a) if a in (TRUE, FALSE) else (a, b)
            if x.kind != "c":
                return self.boolean(x) if (y is TRUE) == (op == "==") else NOT(self.boolean(x))
        return super().compare(op, a, b)

    def attr(self, b, name, st, fr):
        if name == "__class__" and b.kind not in ("g", "clo"):
            return T("f", self.extg(Ext("builtins.type")), (b,), ())
        r = super().attr(b, name, st, fr)
        if r.kind == "g" and getattr(r.args[0], "name", "") == "numpy.newaxis":
            return NONE
        return r

    def islist(self, t, depth=0):
        k = t.kind
        if k in ("lst", "tup", "comp", "fstr"):
            return True
        if k == "c":
            return isinstance(cval(t), str)
        if k == "ite":
            return self.islist(t.args[1], depth) or self.islist(t.args[2], depth)
        if k == "f" and t.args[0].kind == "g":
            return getattr(t.args[0].args[0], "name", "") in ("cat", "builtins.list", "builtins.tuple", "builtins.str", "builtins.sorted")
        if k == "f" and t.args[0].kind == "a" and t.args[0].args[1] == "tolist":
            return True
        if k in ("lv", "after") and depth < 5:
            i = getattr(self.loops[t.args[1]], "inits", {}).get(t.args[0])
            return i is not None and self.islist(i, depth + 1)
        return False

    def isfresh(self, t, fr, depth=0):
        """A container made in this call (not the caller's and not an attribute)."""
        k = t.kind
        if k in ("lst", "dict", "comp", "dcomp", "set") or self.islist(t) and k != "c":
            return True
        if k == "p":
            return any(p.kind == "kw" and p.name in (t.args[0], t.args[0].lstrip("*")) for p in self.stack[0].params)
        if k == "ite":
            return self.isfresh(t.args[1], fr, depth) or self.isfresh(t.args[2], fr, depth)
        if k == "f" and t.args[0].kind == "g":
            return getattr(t.args[0].args[0], "name", "") in ("builtins.dict", "builtins.set", "collections.OrderedDict", "upd", "collections.defaultdict") or \
                getattr(t.args[0].args[0], "qualname", "") in ("vectorbt.utils.config.merge_dicts", "vectorbt.utils.config.copy_dict")
        if k in ("lv", "after") and depth < 5:
            i = getattr(self.loops[t.args[1]], "inits", {}).get(t.args[0])
            return i is not None and self.isfresh(i, fr, depth + 1)
        return False

    def binop(self, op, a, b):
        if op == "+" and (self.islist(a) or self.islist(b)) and not (a.kind == "c" and b.kind == "c"):
            parts = []
            for x in (a, b):
                if x.kind == "f" and x.args[0] is CAT():
                    parts += x.args[1]
                else:
                    parts.append(x)
            out = []
            for x in parts:
                if x.kind in ("lst", "tup") and not x.args and len(parts) > 1:
                    continue
                if out and x.kind in ("lst", "tup") and out[-1].kind == x.kind:
                    out[-1] = T(x.kind, *(out[-1].args + x.args))
                else:
                    out.append(x)
            if not out:
                return a
            return out[0] if len(out) == 1 else T("f", CAT(), tuple(out), ())
        return super().binop(op, a, b)

    def call(self, n, f, args, kwargs, dstar, st, fr):
        if f.kind == "a" and f.args[1] in MUTATORS and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                n.func.value.id in st.vars and st.vars[n.func.value.id] is f.args[0] and self.isfresh(f.args[0], fr):
            x, m, name = f.args[0], f.args[1], n.func.value.id
            if m == "append" and len(args) == 1 and not kwargs:
                st.vars[name] = self.binop("+", x, T("lst", args[0])) if x.kind != "lst" or x.args else T("lst", args[0])
                return NONE
            if m == "extend" and len(args) == 1 and not kwargs and self.islist(x):
                st.vars[name] = self.binop("+", x, self.unlisted(args[0]))
                return NONE
            if m == "insert" and len(args) == 2 and not kwargs and args[0] is C(0) and self.islist(x):
                st.vars[name] = self.binop("+", T("lst", args[1]), x)
                return NONE
            st.vars[name] = T("f", self.extg(Ext("upd")), (x, C(m)) + tuple(args), tuple(sorted(kwargs.items())) + tuple(("**", d) for d in dstar))
            if m not in ("pop", "setdefault", "popitem"):
                return NONE
        for i, a in enumerate(args):        # f(*(x if c else y)) chooses between two calls
            if a.kind == "star" and a.args[0].kind == "ite" and all(x.kind in ("tup", "lst") for x in a.args[0].args[1:]) and \
                    not isinstance(self.callee_of(f, n, st, fr), FunctionInfo):
                one = [self.call(n, f, list(args[:i]) + list(x.args) + list(args[i + 1:]), kwargs, dstar, st, fr) for x in a.args[0].args[1:]]
                return ITE(a.args[0].args[0], *one)
        return super().call(n, f, args, kwargs, dstar, st, fr)

    @staticmethod
    def unlisted(t):
        while t.kind == "f" and t.args[0].kind == "g" and getattr(t.args[0].args[0], "name", "") == "builtins.list" and len(t.args[1]) == 1 and not t.args[2]:
            t = t.args[1][0]
        return T("lst", *t.args) if t.kind == "tup" else t

    def s_Expr(self, s, st, fr):
        v = self.expr(s.value, st, fr)
        if not st.dead:
            for conds, w in self.outcomes(v):
                loc = T("i", T("calls", w.args[0]), C(0))
                old = self.heap_get(st, loc)
                st.heap[loc] = ITE(AND(*conds), T("seq", old, w), old) if conds else T("seq", old, w)
        return st

    def outcomes(self, v, conds=()):
        if v.kind == "f":
            yield conds, v
        elif v.kind == "ite":
            yield from self.outcomes(v.args[1], conds + (v.args[0],))
            yield from self.outcomes(v.args[2], conds + (NOT(v.args[0]),))

    def s_ClassDef(self, s, st, fr):
        inner, members = st.copy(), []
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                self.on_func_def(x, inner, fr)
                members.append((x.name, inner.vars[x.name]))
            elif isinstance(x, (ast.Assign, ast.AnnAssign)) and getattr(x, "value", None) is not None:
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    if isinstance(t, ast.Name):
                        inner.vars[t.id] = self.expr(x.value, inner, fr)
                        members.append((t.id, inner.vars[t.id]))
        bases = T("tup", *[self.expr(b, st, fr) for b in s.bases])
        st.vars[s.name] = T("f", self.extg(Ext("builtins.type")), (bases, T("dict", tuple(sorted(members)))), ())
        return st

    def e_Yield(self, n, st, fr):
        v = self.expr(n.value, st, fr) if n.value is not None else NONE
        loc = T("i", T("calls", P("yield")), C(0))
        st.heap[loc] = T("seq", self.heap_get(st, loc), T("f", P("yield"), (v,), ()))
        return T("f", P("yielded"), (), ())

    e_YieldFrom = e_Yield


class PKernel(Kernel):
    def __init__(self, prog, fi, split=frozenset()):
        self.split = split
        super().__init__(prog, fi)
        self.open_closures()

    def make_flow(self, prog, opaque):
        fl = PFlow(prog, opaque=opaque)
        fl.split, fl.seen = self.split, set()
        return fl

    # ---- nested functions and lambdas as values: parameters numbered, captured variables replaced by their values ----
    def open_closures(self):
        memo, self.level, self.opening = {}, 0, {}
        rw = self.rw = lambda t: rewrite(t, self.lam, memo)
        loc = rw
        self.ret = rw(self.ret)
        self.heap = {loc(k): rw(v) for k, v in self.heap.items()}
        self.raises = [rw(x) for x in self.raises]
        done = 0
        while done < len(self.loops):
            lp = self.loops[done]
            done += 1
            lp.iter = tuple(rw(x) for x in lp.iter)
            lp.entry = rw(lp.entry)
            lp.heap = {loc(k): rw(v) for k, v in lp.heap.items()}
            lp.pre = {loc(k): rw(v) for k, v in lp.pre.items()}
            lp.raises, lp.breaks, lp.returns = ([rw(x) for x in y] for y in (lp.raises, lp.breaks, lp.returns))
            lp.carried = {n: (rw(i) if isinstance(i, T) else i, rw(u) if isinstance(u, T) else u) for n, (i, u) in lp.carried.items()}

    def fn(self, fi):
        """What is stored to a function made here does not depend on what the function does: name it by its place among those that are stored to."""
        if not hasattr(self, "_fns"):
            sets = {n.value.id for n in ast.walk(self.fi.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
            self._fns = sorted((n for n in ast.walk(self.fi.node) if isinstance(n, ast.FunctionDef) and n.name in sets), key=lambda n: n.lineno)
        return T("fn", next((i for i, n in enumerate(self._fns) if n is fi.node), fi.name))

    def lam(self, t):
        if t.kind in ("a", "i") and t.args[0].kind == "clo":
            return T(t.kind, self.fn(t.args[0].args[0]), self.rw(t.args[1]) if isinstance(t.args[1], T) else t.args[1])
        if t.kind != "clo" or t not in self.flow.closures:
            return None
        fi = t.args[0]
        if fi in self.opening:
            return T("rec", self.opening[fi])
        fl = self.flow
        clo = fl.closures[t]
        self.opening[fi] = self.level
        args, sig = {}, []
        dst = State(vars=dict(clo.state.vars))
        dfr = Frame(fi.outer or fi)
        for i, p in enumerate(fi.params):
            if p.kind in ("pos", "kwonly"):
                args[p.name] = P(f"~{self.level}.{i}")
                d = fl.expr(p.default, dst.copy(), dfr) if p.default is not None else NONE
                sig.append(T("tup", C(p.kind), d, C(p.default is not None)))
            else:
                args[p.name] = P(f"~{self.level}.{'*' if p.kind == 'var' else '**'}")
                sig.append(T("tup", C(p.kind)))
        decs = tuple(fl.expr(d, dst.copy(), dfr) for d in getattr(fi.node, "decorator_list", []))
        s = State(vars=dict(clo.state.vars))
        s.vars.update(args)
        s.aux = ()
        saved = fl.tree, fl.baselen, fl.cur
        fl.tree, fl.baselen, fl.cur = [], [()], [None]
        fl.stack.append(fi)
        self.level += 1
        try:
            fr = fl.run(fi, s)
            fl.stack.pop()
            ret = self.rw(fl.out_value(fr, lambda r: r[0]))
            heap = fl.final_heap(fr)
            eff = tuple(T("eff", self.rw(k), self.rw(v)) for k, v in sorted(heap.items(), key=lambda x: str(x[0])) if k is not v)
            bad = self.rw(fl.build(fr.tree, lambda k, i=None: TRUE if k == "raise" else FALSE, FALSE))
        finally:
            fl.tree, fl.baselen, fl.cur = saved
            self.level -= 1
            del self.opening[fi]
        return T("lam", T("tup", *sig), T("tup", *[self.rw(d) for d in decs]), ret, bad, *eff)


def load_ref(prog, module):
    """Reference functions of a module: {Class.method or function: FunctionInfo}."""
    path = os.path.join(DIR, module.replace("vectorbt.", "") + ".py")
    m = spec_module(prog, "ref_" + module.replace(".", "_"), open(path).read())
    out = {}
    mod = prog.modules.get(module)
    for n, f in m.functions.items():
        if "__decl" in n:
            x, _, cls = n.partition("__decl")
            cls = cls.replace("__of__", "")
            c = mod.classes.get(cls) if mod is not None and cls else None
            f.cls, f.name = c, x
            out[(cls + "." if cls else "") + x + "="] = f
        elif "__of__" in n:
            meth, cls = n.split("__of__")
            c = mod.classes.get(cls) if mod is not None else None
            f.cls, f.name = c, meth
            out[f"{cls}.{meth}"] = f
        elif n.endswith("__ref"):
            f.name = n[:-5]
            out[f.name] = f
    return out


def declaration(mod, name):
    """The expression assigned to a module or class attribute, as a function returning it."""
    cls, _, x = name.rpartition(".")
    c = mod.classes.get(cls) if cls else None
    body = c.node.body if c is not None else mod.tree.body
    val = None
    for s in body:
        for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []):
            if isinstance(t, ast.Name) and t.id == x:
                val = s
    if val is None:
        return None
    fn = ast.parse(f"def {x}():\n    return 0").body[0]
    fn.body[0].value = val.value
    ast.copy_location(fn, val)
    for n in (fn.body[0], fn.args):
        ast.copy_location(n, val)
    f = FunctionInfo(x, fn, mod, c, None)
    return f


def find(prog, module, name):
    mod = prog.modules.get(module)
    if mod is None:
        return None
    if name.endswith("="):
        return declaration(mod, name[:-1])
    if "." in name:
        c, m = name.split(".")
        cls = mod.classes.get(c)
        return cls.methods.get(m) if cls is not None else None
    return mod.functions.get(name)


def compare(prog, code, spec, limit, aspect=None):
    ka, kb = PKernel(prog, code), PKernel(prog, spec)
    res = Comparer(prog, ka, kb, limit, True, definite_py).run()
    other = (ka.flow.seen ^ kb.flow.seen)
    if any(r[0] is not True for r in res) and other:
        try:
            r2 = Comparer(prog, PKernel(prog, code, other), PKernel(prog, spec, other), limit, True, definite_py).run()
            if all(r[0] is True for r in r2):
                return r2
        except Exception:
            pass
    res = again(res, lambda mine: PKernel(prog, code if mine else spec), lambda x, y: Comparer(prog, x, y, limit, True, definite_py).run())
    if aspect is not None and any(r[0] is False for r in res):
        d = aspect(ka) ^ aspect(kb)
        if not d:
            res = [(None, w, at, "departs from its reference, but not in what this property is about: " + m) if ok is False else (ok, w, at, m) for ok, w, at, m in res]
    return res


def signature(code, spec):
    """Parameters keep their defaults."""
    out = []
    dc = {p.name: p for p in code.params}
    for p in spec.params:
        q = dc.get(p.name)
        if q is None:
            continue
        x, y = (ast.unparse(z.default) if z.default is not None else None for z in (q, p))
        same = x == y or isinstance(p.default, ast.Constant) and isinstance(q.default, ast.Constant) and p.default.value == q.default.value
        known = all(z.default is None or isinstance(z.default, ast.Constant) for z in (p, q))
        out.append((True if same else False if known else None, f"the default of {p.name}", code.loc(), f"the default of {p.name} is {x} where the reference has {y}"))
    return out


def check_ref(ctx, rule, prog, code, spec, limit=3000, aspect=None):
    from . import kernel
    ctx.unit(code.qualname)
    if kernel.ONLY is not None and code.name not in kernel.ONLY:
        return
    try:
        res = signature(code, spec) + compare(prog, code, spec, limit, aspect)
    except RecursionError:
        ctx.unknown(code.loc(), f"{code.name}: too deep")
        return
    except AnalysisError:
        raise
    except Exception as e:
        if os.environ.get("TRACE"):
            raise
        ctx.unknown(code.loc(), f"{code.name}: {type(e).__name__} {e}"[:200])
        return
    for ok, what, where, msg in res:
        if ok is True:
            ctx.ok(rule)
        elif ok is False:
            ctx.violate(rule, f"{code.qualname}:{what[:90]}", where, f"{code.name}: {msg}")
        else:
            ctx.unknown(where, f"{code.name}: {msg}")


def run_refs(ctx, rule, module, names=None, minimum=None):
    prog = ctx.prog
    n = 0
    for name, sf in load_ref(prog, module).items():
        if names is not None and name not in names:
            continue
        fi = find(prog, module, name)
        if fi is None:
            ctx.unknown(f"{module}.{name}", "function not found")
            continue
        n += 1
        check_ref(ctx, rule, prog, fi, sf)
    ctx.at_least(f"functions of {module}", n, minimum if minimum is not None else 1)
