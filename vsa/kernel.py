"""Loop kernels as recurrence systems, and their comparison with a reference specification.

A kernel is reduced to: per loop its iteration space, the condition under which it is entered, the recurrences of the
scalars it carries (initial value and one-step update) and what one iteration leaves in memory; plus the return value,
what is in memory at the end and the conditions under which it raises.  Two kernels are compared component by
component, with loop-carried variables matched up coinductively (equal start, equal step).  All values are gated terms
in normal form (see gated.py); nothing is executed.
"""
import ast
import copy
import time
import itertools

from . import gated
from .flow import State
from .gated import AND, C, FALSE, GFlow, ITE, NONE, NOT, OR, RAISE, T, TRUE, UNK, Canon, Facts, case_text, cval, equal, show, subterms
from .program import AnalysisError, Assign, Ext, FunctionInfo

ALLOC = {"empty": None, "zeros": 0, "ones": 1, "full": "arg", "empty_like": None, "zeros_like": 0, "ones_like": 1, "full_like": "arg"}
UNDEF = T("undef")
ONLY = None         # development aid: compare only these functions


class Norm:
    """Normal forms in force while two kernels are built for a second comparison: loops start from zero, new 1-dim arrays have
    their length for a shape, and an array the specification leaves empty may as well hold what the code fills it with."""

    def __init__(self):
        self.fills = {}


NORM = None
LOOKS = {"numpy.isnan", "numpy.isinf", "numpy.isfinite"}
POSITIONS = {       # where the arguments of some functions of numpy and pandas go
    "pandas.RangeIndex": ("start", "stop", "step"), "pandas.Series": ("data", "index", "dtype", "name"),
    "pandas.DataFrame": ("data", "index", "columns", "dtype"), "pandas.Index": ("data", "dtype", "copy", "name"),
    "pandas.concat": ("objs",), "pandas.MultiIndex.from_arrays": ("arrays",), "pandas.MultiIndex.from_tuples": ("tuples",),
    "numpy.asarray": ("a", "dtype"), "numpy.array": ("object", "dtype"), "numpy.repeat": ("a", "repeats", "axis"), "numpy.tile": ("A", "reps"),
    "numpy.sum": ("a", "axis"), "numpy.any": ("a", "axis"), "numpy.all": ("a", "axis"), "numpy.mean": ("a", "axis"),
    "numpy.concatenate": ("arrays", "axis"), "numpy.broadcast_to": ("array", "shape"), "numpy.isclose": ("a", "b", "rtol", "atol", "equal_nan"),
    "numpy.random.choice": ("a", "size", "replace", "p"), "numpy.random.uniform": ("low", "high", "size"), "numpy.random.normal": ("loc", "scale", "size"),
    "numpy.random.randint": ("low", "high", "size"), "numpy.take": ("a", "indices", "axis"), "numpy.where": ("condition", "x", "y"),
    "numpy.nanpercentile": ("a", "q"), "numpy.percentile": ("a", "q"), "numpy.cumsum": ("a", "axis"), "numpy.diff": ("a", "n", "axis"),
    "builtins.sum": ("iterable", "start"), "builtins.sorted": ("iterable",), "builtins.enumerate": ("iterable", "start"), "builtins.int": ("x",),
}


class Loop:
    def __init__(self, lid, parent, node, fi):
        self.id, self.parent, self.node, self.fi = lid, parent, node, fi
        self.kind = None
        self.enumerated = False
        self.iter = ()
        self.entry = TRUE
        self.carried = {}       # name -> (init, update)
        self.heap = {}          # location -> value at the end of one iteration
        self.raises = []
        self.breaks = []
        self.returns = []

    def where(self):
        return self.fi.loc(self.node)


class KFlow(GFlow):
    """GFlow with numbered loops, allocations and recurrences."""

    def __init__(self, prog, opaque=(), inline=None):
        super().__init__(prog, inline=inline, opaque=opaque)
        self.loops = []
        self.cur = [None]
        self.nalloc = {}
        self.born = {}          # new array -> loop whose iterations allocate it
        self.newnames = {}
        self.baselen = [()]

    def call(self, n, f, args, kwargs, dstar, st, fr):
        if NORM is not None and f.kind == "g" and getattr(f.args[0], "name", None) in POSITIONS and not any(a.kind == "star" for a in args):
            kwargs = dict(kwargs)
            for p in POSITIONS[f.args[0].name][len(args):]:     # leading arguments by position
                if p not in kwargs:
                    break
                args = list(args) + [kwargs.pop(p)]
        if NORM is not None and f.kind == "a" and f.args[1] == "get" and 1 <= len(args) <= 2 and not kwargs and not dstar:
            return ITE(self.compare("in", args[0], f.args[0]), self.load(f.args[0], args[0], st), args[1] if len(args) > 1 else NONE)
        if NORM is not None and dstar:
            dstar = [self.options(d) for d in dstar]
        if NORM is not None and f.kind == "g" and getattr(f.args[0], "name", None) in LOOKS and len(args) == 1 and not kwargs:
            x = args[0]             # a copy nothing has been written to holds what was copied
            if x.kind == "new" and x.args[1].kind == "f" and self.born.get(x, False) is self.cur[-1] and not any(root(loc) is x for loc in st.heap):
                args = [x.args[1].args[1][0]]
        return super().call(n, f, args, kwargs, dstar, st, fr)

    @staticmethod
    def options(d):
        """Keyword arguments that may be None: one way of saying "none of them"."""
        empty = T("dict", ())
        if d.kind == "f" and short_name(d.args[0]) == "merge_dicts" and len(d.args[1]) == 2 and not d.args[2] and d.args[1][0] is empty:
            return ITE(d.args[1][1], d.args[1][1], empty)
        if d.kind == "ite" and d.args[0].kind == "op" and d.args[0].args[0] in ("is", "is not") and d.args[0].args[2] is NONE:
            x = d.args[0].args[1]
            a, b = d.args[1:] if d.args[0].args[0] == "is not" else reversed(d.args[1:])
            if a is x and b is empty:
                return ITE(x, x, empty)
        return d

    def isdict(self, t, depth=0):
        return t is not None and (t.kind == "dict" or t.kind == "p" and isinstance(t.args[0], str) and t.args[0].startswith("**"))

    # ---- values ----
    def alloc(self, norm):
        k = self.nalloc.get(norm, 0)
        self.nalloc[norm] = k + 1
        self.born[T("new", k, norm)] = self.cur[-1]
        return T("new", k, norm)

    fresh_copies = True     # two copies of one array are two arrays

    def fresh_copy(self, src):
        return self.alloc(T("f", self.extg(Ext("numpy.copy")), (src,), ()))

    def bind(self, t, v, st, fr, node):
        if isinstance(t, ast.Name) and v.kind == "new":
            self.newnames.setdefault(v, t.id)
        if NORM is not None and isinstance(t, ast.Subscript):
            b, i = self.expr(t.value, st, fr), self.expr(t.slice, st, fr)
            if b.kind in ("new", "p") and self.either(i) is not None:
                todo = [(TRUE, i)]
                while todo:             # either of two places
                    c, i = todo.pop()
                    e = self.either(i)
                    if e is not None and len(todo) < 8:
                        todo += [(AND(c, e[0]), e[1]), (AND(c, NOT(e[0])), e[2])]
                    else:
                        loc = T("i", b, i)
                        st.heap[loc] = ITE(c, v, self.heap_get(st, loc))
                self.on_store(t, b, v, st, fr)
                return
        super().bind(t, v, st, fr, node)

    @staticmethod
    def either(i):
        """An index that depends on a condition: the condition and the index in both cases."""
        if i.kind == "ite":
            return i.args
        if i.kind in ("tup", "sl"):
            for k, x in enumerate(i.args):
                e = KFlow.either(x)
                if e is not None:
                    return (e[0],) + tuple(T(i.kind, *i.args[:k], y, *i.args[k + 1:]) for y in e[1:])
        return None

    def load(self, b, i, st):
        e = self.either(i) if NORM is not None else None
        if e is not None:
            return ITE(e[0], self.load(b, e[1], st), self.load(b, e[2], st))
        return super().load(b, i, st)

    def shape_of(self, x):
        if x.kind == "new":
            if x.args[1].kind == "f":
                return self.shape_of(x.args[1].args[1][0])
            shape = x.args[1].args[0]
            if shape.kind == "i" and shape.args[0].kind == "a" and shape.args[0].args[1] == "shape" and shape.args[1].kind == "c":
                return T("tup", shape)          # one length
            return shape
        return T("a", x, "shape")

    def length_of(self, shape):
        """The length of a 1-dim array for its shape; all lengths of an array for its shape."""
        if shape.kind == "tup" and len(shape.args) > 1 and shape.args[0].kind == "i":
            whole = shape.args[0].args[0]
            if whole.kind == "a" and whole.args[1] == "shape" and all(x is self.item(whole, C(k)) for k, x in enumerate(shape.args)):
                return whole
        if shape.kind == "tup" and len(shape.args) == 1:
            return shape.args[0]
        if shape.kind == "a" and shape.args[1] == "shape":
            x = shape.args[0]
            idx = x.args[1].args if x.kind == "i" and x.args[1].kind == "tup" else ()
            if x.kind == "p" and "_1d" in self.stack[0].name or len(idx) == 2 and sum(y.kind == "sl" for y in idx) == 1:
                return self.item(shape, C(0))
        return shape

    def dtype_name(self, t):
        if t is None:
            return "float64"
        if t.kind == "g":
            n = getattr(t.args[0], "name", None)
            if n is not None:
                n = n.split(".")[-1]
                return {"float": "float64", "float_": "float64", "int": "int64", "int_": "int64", "bool": "bool_", "double": "float64"}.get(n, n)
        return t

    typing_mode = False     # evaluate numba's overload templates as the compiler sees them (arguments are types)

    def do_inline(self, rec, st, fr):
        v = super().do_inline(rec, st, fr)
        c = rec.callee
        if v.kind == "clo" and rec.func.kind != "clo" and not st.dead and self.typing_mode and v.args[0].outer is c and \
                [p.name for p in v.args[0].params] == [p.name for p in c.params]:
            r = copy.copy(rec)          # the template returns the implementation numba compiles
            r.func, r.callee = v, v.args[0]
            v = super().do_inline(r, st, fr)
        return v

    def ext_call(self, name, rec):
        short = name.split(".")[-1]
        a, kw = list(rec.args), dict(rec.kwargs)
        if name == "builtins.isinstance" and len(a) == 2 and a[1].kind == "g" and getattr(a[1].args[0], "name", "").startswith("numba."):
            return C(self.typing_mode and short_name(a[1]) == "Type")
        if name == "builtins.isinstance" and len(a) == 2 and a[0].kind == "p" and a[1].kind == "g" and getattr(a[1].args[0], "name", "") == "numpy.ndarray" and a[0].args[0].endswith("arr"):
            return C(not self.typing_mode)
        if name == "numpy.copy" and len(a) == 1 and not kw and self.fresh_copies:
            return self.fresh_copy(a[0])
        if name.endswith("numpy_support.as_dtype") and len(a) == 1:
            return a[0] if a[0].kind == "a" and a[0].args[1] == "dtype" else T("a", T("f", self.extg(Ext("numpy.array")), (a[0],), ()), "dtype")
        if name.startswith("numpy.") and short in ALLOC and not rec.dstar:
            like = short.endswith("_like")
            src = a[0] if a else kw.get("shape", kw.get("a", UNK))
            shape = self.shape_of(src) if like else src
            fill = ALLOC[short]
            rest = a[1:]
            if fill == "arg":
                fill = rest.pop(0) if rest else kw.get("fill_value", UNK)
            elif fill is not None:
                fill = C(fill)
            dt = rest[0] if rest else kw.get("dtype")
            if dt is None and like:
                dt = T("a", src, "dtype")
            if dt is None and fill is not None and fill.kind == "c" and isinstance(cval(fill), bool):
                dt = "bool_"
            if dt is None and fill is not None and fill.kind == "c" and isinstance(cval(fill), int) and short == "full":
                dt = "int64"
            if not isinstance(dt, str):
                dt = self.dtype_name(dt)
            if fill is not None and fill.kind == "c" and isinstance(cval(fill), (int, float)) and not isinstance(cval(fill), bool):
                fill = C(float(cval(fill))) if cval(fill) == cval(fill) else fill
            if NORM is not None:
                shape = self.length_of(shape)
                fill = fill if fill is not None else NORM.fills.get((shape, dt))
            return self.alloc(T("alloc", shape, fill if fill is not None else NONE, dt))
        if name == "builtins.len" and len(a) == 1 and a[0].kind not in ("tup", "lst") and not (a[0].kind == "g" and isinstance(a[0].args[0], Assign)):
            return self.item(self.shape_of(a[0]), C(0))
        if name in ("builtins.range", "numba.prange", "numpy.arange") and 1 <= len(a) <= 3 and not kw:
            lo, hi, st = (C(0), a[0], C(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else C(1))
            return T("range", lo, hi, st)
        return super().ext_call(name, rec)

    def attr(self, b, name, st, fr):
        if name == "shape" and b.kind == "new":
            return self.shape_of(b)
        if name == "size" and b.kind == "new" and self.shape_of(b).kind != "tup":
            return super().attr(b, name, st, fr)
        return super().attr(b, name, st, fr)

    def call_result(self, rec, st, fr):
        # method forms of numpy reductions
        f = rec.func
        if f.kind == "a" and f.args[1] in ("sum", "mean", "min", "max", "any", "all", "cumsum", "astype", "copy") and rec.callee is None:
            if f.args[1] == "copy" and not rec.args and not rec.kwargs and self.fresh_copies:
                return self.fresh_copy(f.args[0])
            if f.args[1] not in ("astype", "copy"):
                e = Ext("numpy." + f.args[1])
                return T("f", self.extg(e), (f.args[0],) + tuple(rec.args), tuple(sorted(rec.kwargs.items())))
        return super().call_result(rec, st, fr)

    def s_Expr(self, s, st, fr):
        v = self.expr(s.value, st, fr)
        if v.kind == "f" and not st.dead:
            # a call made for its effect
            f = v.args[0]
            if f.kind in ("p", "clo") or f.kind == "g" and isinstance(f.args[0], FunctionInfo) or f.kind == "a" and f.args[1] in ("append", "extend", "add", "update", "fill"):
                loc = T("i", T("calls", f), C(0))
                st.heap[loc] = T("seq", self.heap_get(st, loc), v)
        return st

    exts = {}

    def extg(self, e):
        return self.exts.setdefault(e.name, T("g", e))

    # ---- loops ----
    def s_For(self, s, st, fr):
        it = self.expr(s.iter, st, fr)
        if st.dead:
            return None
        names = self.assigned(s.body) | self.assigned([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        lid = len(self.loops)
        lp = Loop(lid, self.cur[-1], s, fr.fi)
        self.loops.append(lp)
        iv = T("it", lid)
        enum = False
        if it.kind == "f" and it.args[0].kind == "g" and getattr(it.args[0].args[0], "name", "") == "builtins.enumerate" and len(it.args[1]) == 1 and not it.args[2]:
            it, enum = it.args[1][0], True
        if it.kind == "range":
            lp.kind, lp.iter, val = "range", it.args, iv
            if NORM is not None and it.args[2] is C(1) and it.args[0] is not C(0):
                lp.iter = (C(0), self.binop("-", it.args[1], it.args[0]), C(1))
                val = self.binop("+", it.args[0], iv)
        elif NORM is not None and it.kind == "i" and it.args[1].kind == "sl" and it.args[0].kind in ("p", "a", "i", "new", "lv", "it") and \
                it.args[1].args[0].kind == "c" and type(cval(it.args[1].args[0])) is int and cval(it.args[1].args[0]) > 0 and \
                all(x is NONE for x in it.args[1].args[1:]):
            seq, first = it.args[0], it.args[1].args[0]         # what comes after the first elements
            lp.kind, lp.iter = "range", (C(0), self.binop("-", self.item(self.shape_of(seq), C(0)), first), C(1))
            val = self.item(seq, self.binop("+", first, iv))
        elif NORM is not None and self.stretch(it) is not None:
            seq, start, n = self.stretch(it)
            lp.kind, lp.iter = "range", (C(0), n, C(1))
            val = self.item(seq, self.binop("+", start, iv))
        elif it.kind in ("p", "a", "i", "new", "lv", "it"):
            lp.kind, lp.iter = "range", (C(0), self.item(self.shape_of(it), C(0)), C(1))
            val = self.item(it, iv)
        elif NORM is not None and it.kind == "f" and it.args[0].kind == "a" and it.args[0].args[1] == "values" and not it.args[1] and not it.args[2]:
            it = T("f", T("a", it.args[0].args[0], "items"), (), ())
            lp.kind, lp.iter, val = "iter", (it,), self.item(self.element(it, iv), C(1))
        else:
            lp.kind, lp.iter, val = "iter", (it,), self.element(it, iv)
        lp.enumerated = enum
        if enum:
            val = T("tup", iv, val)
        return self.kloop(lp, s, st, fr, names, lambda e: self.bind(s.target, val, e, fr, s), None)

    @staticmethod
    def stretch(it):
        """x[a:a + n]: n elements of x from a on."""
        if it.kind != "i" or it.args[1].kind != "sl" or it.args[1].args[2] is not NONE:
            return None
        a, b = it.args[1].args[:2]
        if b.kind == "op" and b.args[0] == "+" and a in b.args[1:] and a is not NONE:
            return it.args[0], a, b.args[2] if b.args[1] is a else b.args[1]
        return None

    def element(self, it, iv):
        return iv

    def s_While(self, s, st, fr):
        lid = len(self.loops)
        lp = Loop(lid, self.cur[-1], s, fr.fi)
        self.loops.append(lp)
        lp.kind = "while"
        return self.kloop(lp, s, st, fr, self.assigned(s.body), None, s.test)

    def kloop(self, lp, s, st, fr, names, binder, test):
        lp.pre = dict(st.heap)
        lp.entry = AND(*[c for c in (st.aux or ()) if c not in self.baselen[-1]])
        pre = st.copy()
        head = st.copy()
        inits = {}
        targets = self.assigned([ast.Assign(targets=[s.target], value=ast.Constant(0))]) if isinstance(s, ast.For) else set()
        for n in names:
            if n in targets:
                continue
            inits[n] = head.vars.get(n, UNDEF)
            head.vars[n] = T("lv", n, lp.id)
        lp.inits = inits
        head.heap = {}
        base = head.aux or ()
        e = head.copy()
        if binder:
            binder(e)
        cond = None
        if test is not None:
            cond = self.expr(test, e, fr)
            lp.iter = (cond,)
            self.with_fact(e, cond)
        base_in = e.aux or ()
        breaks, conts = [], []
        fr.loops.append((breaks, conts))
        self.cur.append(lp)
        self.baselen.append(base_in)
        nret = len(fr.returns)
        saved, self.tree = self.tree, []
        out = self.block(s.body, e, fr)
        tree, self.tree = self.tree, saved
        self.baselen.pop()
        self.cur.pop()
        fr.loops.pop()

        def merge(get, brk=False):
            """Value at the end of an iteration that goes on to the next one."""
            skip = T("noiter")
            v = self.build(tree, lambda k, i=None: get(conts[i]) if k == "cont" else get(breaks[i]) if k == "brk" and brk else skip,
                           get(out) if out is not None and not out.dead else skip)
            return v

        def when(kind):
            return self.build(tree, lambda k, i=None: TRUE if k == kind else FALSE, FALSE)
        for n in inits:
            lp.carried[n] = (inits[n], merge(lambda x: x.vars.get(n, UNDEF)))
        keys = set()
        for x in conts + breaks + ([out] if out is not None else []):
            keys |= set(x.heap)
        for k in keys:
            lp.heap[k] = merge(lambda x: self.heap_get(x, k), True)
        lp.raises = [when("raise")]
        lp.breaks = [when("brk")]
        lp.returns = [when("ret")]
        for k in range(nret, len(fr.returns)):
            self.tree.append(("if", T("loopexit", lp.id, k), [("ret", k)], []))
        res = pre
        for n in names:
            res.vars[n] = T("after", n, lp.id) if n not in targets else T("lastit", lp.id)
            if NORM is not None and n in inits and inits[n] is not UNDEF and lp.kind == "range" and lp.iter[2] is C(1):
                res.vars[n] = ITE(self.compare("<", lp.iter[0], lp.iter[1]), res.vars[n], inits[n])
        res.heap = {}
        if test is not None and not breaks:
            pass
        return res


def short_name(t):
    return getattr(t.args[0], "name", "").split(".")[-1]


class Kernel:
    def __init__(self, prog, fi, opaque=(), args=None, facts=(), typing_mode=False):
        self.fi = fi
        fl = self.flow = self.make_flow(prog, opaque)
        fl.typing_mode = typing_mode
        st = fl.init_state(fi, args)
        st.aux = tuple(facts)
        fl.baselen = [tuple(facts)]
        fl.stack.append(fi)
        fr = fl.run(fi, st)
        fl.stack.pop()
        self.ret = fl.out_value(fr, lambda r: r[0])
        self.heap = fl.final_heap(fr)
        self.raises = [fl.build(fr.tree, lambda k, i=None: TRUE if k == "raise" else FALSE, FALSE)]
        self.loops = fl.loops
        self.leaves = [(v, tuple(c for c in (s.aux or ()) if c not in facts), node) for v, node, s in fr.returns]

    def make_flow(self, prog, opaque):
        return KFlow(prog, opaque=opaque)

    def flat_leaves(self, is_leaf):
        """Return values with the conditions under which they are returned, gates opened until is_leaf."""
        def open_(v, conds, node):
            if v.kind == "ite" and not is_leaf(v):
                yield from open_(v.args[1], conds + (v.args[0],), node)
                yield from open_(v.args[2], conds + (NOT(v.args[0]),), node)
            else:
                yield v, conds, node
        for v, conds, node in self.leaves:
            yield from open_(v, conds, node)


# ---------------------------------------------------------------------------------------------------------------
# comparison

def rewrite(t, f, memo):
    """Rebuild a term bottom-up, mapping leaves and nodes through f (None: keep)."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(rewrite(x, f, memo) for x in t)
        if isinstance(t, frozenset):
            return frozenset(rewrite(x, f, memo) for x in t)
        return t
    r = memo.get(t)
    if r is None:
        r = f(t)
        if r is None:
            r = T(t.kind, *[rewrite(x, f, memo) for x in t.args]) if t.args else t
        memo[t] = r
    return r


class Renaming:
    def __init__(self, lv=None, new=None, params=None):
        self.lv, self.new, self.params = lv or {}, new or {}, params or {}
        self.memo = {}

    def __call__(self, t):
        return rewrite(t, self.one, self.memo)

    order = {}

    def one(self, t):
        if t.kind in ("lv", "after"):
            lid = self.order.get(t.args[1], t.args[1])
            n = self.lv.get((t.args[0], lid), t.args[0])
            if n != t.args[0] or lid != t.args[1]:
                return T(t.kind, n, lid)
        if t.kind in ("it", "lastit", "loopexit"):
            lid = self.order.get(t.args[0], t.args[0])
            if lid != t.args[0]:
                return T(t.kind, lid, *[self(x) if isinstance(x, T) else x for x in t.args[1:]])
        if t.kind == "new":
            norm = self(t.args[1])
            k = self.new.get((norm, t.args[0]), t.args[0])
            return T("new", k, norm)
        if t.kind == "p" and t.args[0] in self.params:
            return T("p", self.params[t.args[0]])
        return None


OPAQUE_KINDS = {"?", "phi", "big", "comp", "dcomp", "clo", "undef", "fstr", "lastit", "loop"}
VOCAB = {"sum", "nansum", "mean", "nanmean", "min", "max", "nanmin", "nanmax", "std", "nanstd", "var", "any", "all", "cumsum", "cumprod",
         "prod", "nanprod", "sqrt", "floor", "ceil", "log", "exp", "argmax", "argmin", "nanargmax", "nanargmin", "sign", "argsort", "sort", "median", "nanmedian",
         "power", "log1p", "expm1", "diff", "isnan"}


def heads(t, skip=()):
    out = set()
    for x in subterms(t):
        if x in skip:
            continue
        if x.kind == "f":
            f = x.args[0]
            if f.kind == "g":
                out.add(getattr(f.args[0], "name", "?").split(".")[-1])
            else:
                out.add("." + f.args[1] + ("=" if f.args[1] == "replace" and x.args[2] else "") if f.kind == "a" else "p:" + f.args[0] if f.kind == "p" else "?")
        elif x.kind in OPAQUE_KINDS:
            out.add("?" + x.kind)
    return out


# calls that can come and go between two ways of writing the same thing
NEUTRAL = {"get", "items", "keys", "values", "len", "isinstance", "hasattr", "getattr", "setattr", "type", "list", "tuple", "dict", "set", "str", "bool", "int",
           "float", "zip", "enumerate", "range", "map", "filter", "any", "all", "asarray", "array", "copy", "astype", "format", "join", "append", "extend",
           "update", "setdefault", "pop", "insert", "sorted", "reversed", "iter", "next", "callable", "issubclass", "equals", "arange", "super", "index", "count",
           "startswith", "endswith", "lower", "upper", "split", "strip", "replace", "warn", "print", "partial", "slice", "sum", "min", "max", "abs", "isnull",
           "isna", "notna", "to_numpy", "logical_and", "logical_or", "logical_not", "where", "full", "zeros", "empty", "ones", "concatenate", "stack",
           "hstack", "vstack", "column_stack", "__getitem__", "__setitem__", "__call__", "__init__", "reduce", "chain", "from_iterable", "fromkeys", "OrderedDict",
           "ravel", "flatten", "reshape", "squeeze", "expand_dims", "nonzero", "flatnonzero", "item", "tolist", "cast", "upd"}


ALIASES = {"to_2d", "to_2d_array", "to_1d", "to_1d_array", "to_pd_array", "to_any_array", "asarray", "asanyarray", "atleast_2d", "ravel", "reshape", "to_numpy", "view", "transpose"}
DATA = {"obj", "values", "records_arr", "mapped_arr", "col_arr", "idx_arr", "id_arr", "close", "ts", "call_seq", "init_cash"}


def handed_in(t):
    """The parameter whose own data (not a copy) this is."""
    data = False
    while True:
        if t.kind == "p":
            return None if t.args[0] == "self" and not data else t.args[0]
        if t.kind == "a" and t.args[1] in DATA | {"T", "loc", "iloc", "at", "iat"}:
            data = data or t.args[1] in DATA
            t = t.args[0]
        elif t.kind == "f" and t.args[0].kind == "g" and t.args[1] and getattr(t.args[0].args[0], "name", "?").split(".")[-1] in ALIASES:
            t = t.args[1][0]
        elif t.kind == "f" and t.args[0].kind == "a" and t.args[0].args[1] in ALIASES:
            data = True
            t = t.args[0].args[0]
        else:
            return None


def root(t):
    while t.kind in ("a", "i"):
        t = t.args[0]
    return t


def source_of_copy(t):
    if t.kind == "ite":
        for u, v in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if v.kind == "f" and source_of_copy(v) is u:
                return u            # copied when asked to
    if t.kind == "f":
        f = t.args[0]
        if f.kind == "a" and f.args[1] in ("copy", "deepcopy") and not t.args[1]:
            return f.args[0]
        if f.kind == "g" and t.args[1] and getattr(f.args[0], "name", "").split(".")[-1] in ("copy", "deepcopy", "copy_dict", "array"):
            return t.args[1][0]


UNDEF_ARG = T("notgiven")
SAME_BUILD = {"f", "comp", "dcomp", "lst", "tup", "a", "i", "dict", "iter", "fstr", "set", "star", "seq", "slice", "lam", "eff", "ite", "fn", "op", "and", "or", "not"}


def opposite(a, b, limit=6):
    """Narrow a difference between equally built terms to the smallest parts that differ; None: too many."""
    ca, out, seen = Canon(Facts()), [], set()
    todo = [(a, b, True)]
    while todo:
        x, y, top = todo.pop()
        if (x, y) in seen:
            continue
        seen.add((x, y))
        if len(seen) > 400:
            return None
        if not top and ca.key(x) == ca.key(y):
            continue
        if x.kind == y.kind == "phi":
            dx, dy = unmatched(x.args[0], y.args[0], ca)
            kinds = [[u.kind for u in d] for d in (dx, dy)]
            if sorted(kinds[0]) == sorted(kinds[1]) and len(set(kinds[0])) == len(kinds[0]):
                todo += [(u, next(v for v in dy if v.kind == u.kind), False) for u in dx]
                continue
        if x.kind == y.kind and x.kind in SAME_BUILD and not (
                x.kind == "f" and (x.args[0] is not y.args[0] and x.args[0].kind not in ("a", "f") or len(x.args[1]) != len(y.args[1]))):
            fx, fy = flat(x.args), flat(y.args)
            if x.kind == "f" and x.args[0] is y.args[0] and len(x.args[2]) != len(y.args[2]):
                kx, ky = dict(x.args[2]), dict(y.args[2])
                one = [n for n in set(kx) ^ set(ky)]
                if len(one) == 1 and (one[0] != "**" or (kx.get("**") or ky.get("**")).kind == "p") and (kx.get(one[0]) or ky.get(one[0])).kind != "c":
                    n = one[0]
                    todo += [(u, v, False) for u, v in zip(x.args[1], y.args[1]) if u is not v]
                    todo += [(kx[m], ky[m], False) for m in kx if m in ky and kx[m] is not ky[m]]
                    out.append((kx.get(n, UNDEF_ARG), ky.get(n, UNDEF_ARG)))
                    continue
            if x.kind == "op" and x.args[0] == y.args[0] in ("and", "or") and superset(fx[1:], fy[1:]):
                out.append((x, y))
                continue
            if len(fx) == len(fy):
                d = [(u, v) for u, v in zip(fx, fy) if u is not v and u != v]
                if d and all(isinstance(u, T) and isinstance(v, T) for u, v in d) and (len(d) == 1 or x.kind not in ("op", "and", "or")):
                    todo += [(u, v, False) for u, v in d]
                    continue
        out.append((x, y))
        if len(out) > limit:
            return None
    return out or [(a, b)]


def exchanged(x, y, u, v):
    """Somewhere the same function is given u and v in the one and v and u in the other."""
    calls = [{t for t in subterms(z) if t.kind == "f" and len([w for w in t.args[1] if w is u or w is v]) == 2} for z in (x, y)]
    flip = lambda t: (t.args[0], tuple(v if w is u else u if w is v else w for w in t.args[1]), t.args[2])
    return {flip(t) for t in calls[0]} == {t.args for t in calls[1]} and bool(calls[0])


def unmatched(xs, ys, ca):
    kx, ky = {ca.key(u): u for u in xs}, {ca.key(u): u for u in ys}
    return [u for k, u in kx.items() if k not in ky], [u for k, u in ky.items() if k not in kx]


def tests_of(t):
    """The elementary tests in the conditions of a term."""
    out, todo = set(), [x.args[0] for x in subterms(t) if x.kind == "ite"]
    while todo:
        x = todo.pop()
        if x.kind == "op" and x.args[0] in ("and", "or", "not"):
            todo += x.args[1:]
        elif x.kind == "ite":
            todo += x.args
        elif x.kind != "c":
            out.add(x)
    return out


def superset(fx, fy):
    return len(fx) != len(fy) and all(isinstance(u, T) for u in fx + fy) and (set(fx) < set(fy) or set(fy) < set(fx))


def flat(x):
    if isinstance(x, tuple):
        return [z for y in x for z in flat(y)]
    return [x]


def definite(a, b, shared=frozenset(), terms=frozenset()):
    """A difference that cannot come from two ways of writing the same value (shared: calls both sides make somewhere; terms: values both sides build)."""
    if not (isinstance(a, T) and isinstance(b, T)):
        return True
    return all(definite1(x, y, shared, terms) for x, y in opposite(a, b) or [(a, b)])


def definite1(a, b, shared, terms):
    ha, hb = heads(a, terms), heads(b, terms)
    if any(h.startswith("?") for h in ha | hb):
        opaque = [{x for x in subterms(t) if x.kind in OPAQUE_KINDS or x.kind == "f" and x.args[0].kind not in ("g", "a", "p")} for t in (a, b)]
        if opaque[0] != opaque[1] or not (opaque[0] and a not in opaque[0] and b not in opaque[0]):
            return False        # values the evaluator does not see through, unless both sides use the very same ones
    return (ha ^ hb) <= VOCAB | shared


def int_carried(k):
    """Loop-carried variables that start from an integer and change by integers (or keep their value)."""
    cand = {(n, l.id): iu for l in k.loops for n, iu in l.carried.items()}
    ok = set(cand)

    def isint(t):
        t0 = t.kind
        if t0 == "c":
            return isinstance(cval(t), int) and not isinstance(cval(t), bool)
        if t0 in ("lv", "after"):
            return (t.args[0], t.args[1]) in ok
        if t0 in ("it", "noiter"):
            return True
        if t0 == "ite":
            return isint(t.args[1]) and isint(t.args[2])
        if t0 == "op":
            return t.args[0] in ("+", "-", "*", "neg", "//", "%") and all(isint(x) for x in t.args[1:])
        return gated.int_key(Canon(Facts()).key(t)) if t0 in ("p", "a", "i", "f") else False
    while True:
        bad = {x for x in ok if not (isint(cand[x][0]) and isint(cand[x][1]))}
        if not bad:
            return ok
        ok -= bad


def bool_carried(k):
    """Loop-carried variables that start from a truth value and only ever take truth values."""
    cand = {(n, l.id): iu for l in k.loops for n, iu in l.carried.items()}
    ok = set(cand)

    def isbool(t):
        if t.kind == "c":
            return isinstance(cval(t), bool)
        if t.kind in ("lv", "after"):
            return (t.args[0], t.args[1]) in ok
        if t.kind == "ite":
            return isbool(t.args[1]) and isbool(t.args[2])
        if t.kind == "op":
            return t.args[0] in ("<", "<=", ">", ">=", "==", "!=", "in", "not in", "is", "is not") or t.args[0] in ("and", "or", "not") and all(isbool(x) for x in t.args[1:])
        return t.kind in ("isnan", "isinf") or t.kind == "p" and t.args[0] in gated.BOOL_NAMES or t.kind == "a" and t.args[1] in gated.BOOL_NAMES
    while True:
        bad = {x for x in ok if not (isbool(cand[x][0]) and isbool(cand[x][1]))}
        if not bad:
            return ok
        ok -= bad


class Worse(Exception):
    """This renaming is no better than one already tried."""


class Comparer:
    """Compare a kernel with its specification; results: list of (ok, what, where, msg)."""

    def __init__(self, prog, code, spec, limit=3000, raises=True, definite=None):
        self.given = definite
        self.prog, self.limit, self.want_raises = prog, limit, raises
        self.a, self.b = code, spec
        self.results = None

    def run(self):
        a, b = self.a, self.b
        gated.INT_LV.clear()
        gated.INT_LV.update(int_carried(a))
        gated.BOOL_LV.clear()
        gated.BOOL_LV.update(bool_carried(a))
        shape = lambda k: [(l.parent.id if l.parent else None, l.kind) for l in k.loops]
        orders = list(itertools.islice(self.loop_orders(), 24))
        if not orders:
            return [(None, "loops", a.fi.loc(), f"loop structure {shape(a)} differs from the specification's {shape(b)}")]
        best = None
        self.budget = None
        end = time.monotonic() + 20
        for order in orders:
            self.order = order
            for ren in self.renamings():
                if best is not None and time.monotonic() > end:
                    break
                ren.order = order
                try:
                    res = self.compare(ren)
                except Worse:
                    continue
                bad = [r for r in res if r[0] is not True]
                if not bad:
                    return res
                score = (len(bad), sum(r[0] is False for r in bad))
                if best is None or score < best[0]:
                    best = (score, res)
                    self.budget = len(bad)
        return best[1]

    def definite(self, x, y):
        if not hasattr(self, "_shared"):
            outs = [{t for t in self.outputs(k) if isinstance(t, T)} for k in (self.a, self.b)]
            hs = [set().union(*[heads(t) for t in o] or [set()]) for o in outs]
            fs = [{x for t in o for x in subterms(t) if x.kind == "f"} for o in outs]
            self._terms = fs[0] & fs[1]
            self._shared = {h for h in hs[0] & hs[1] if not h.startswith("?") and h.lstrip(".") not in NEUTRAL}
            copies = [sum(source_of_copy(x) is not None for x in f) for f in fs]
            shows = [sum(x.kind in ("dict", "lst", "tup", "comp", "dcomp") for t in o for x in subterms(t)) for o in outs]
            self._uncopied = copies[0] < copies[1] and hs[0] <= hs[1] and shows[0] <= shows[1]
        if self._uncopied and isinstance(x, T) and isinstance(y, T) and any(source_of_copy(v) is u for u, v in opposite(x, y) or [(x, y)]):
            return True         # a copy is no longer made, and nothing else is made instead
        if not (isinstance(x, T) and isinstance(y, T)):
            return True
        one = self.given or (lambda u, v, shared: definite1(u, v, shared, self._terms))
        parts = opposite(x, y) or [(x, y)]
        if len(parts) == 2 and parts[0] == parts[1][::-1] and exchanged(x, y, *parts[0]):
            return True
        return all(self.new_test(u, v) or one(u, v, self._shared) for u, v in parts)

    def new_test(self, x, y):
        """One side makes the choice depend on a further test, which the other side makes nowhere."""
        for k, u, v in ((self.b, x, y), (self.a, y, x)):
            for op in ("and", "or"):
                us, vs = (set(t.args[1:]) if t.kind == "op" and t.args[0] == op else {t} for t in (u, v))
                if vs < us and all(self.unknown_to(k, t) for t in us - vs):
                    return True
        return False

    def unknown_to(self, k, t):
        if not hasattr(k, "_all_terms"):
            k._all_terms = set()
            for o in self.outputs(k):
                if isinstance(o, T):
                    k._all_terms.update(subterms(o))
        while t.kind == "op" and t.args[0] == "not":
            t = t.args[1]
        return t.kind in ("f", "op") and not any(h.startswith("?") for h in heads(t)) and t not in k._all_terms

    def respelled_test(self, x, y, facts):
        """The case decides two tests differently that may be one test written in two ways."""
        tx, ty = tests_of(x), tests_of(y)
        trail = set(facts.trail)
        dec = lambda t: True if show(t) in trail else False if "not " + show(t) in trail else None
        mine = [(t, dec(t)) for t in tx - ty]
        mine = [z for z in mine if z[1] is not None]
        if not mine:
            return False
        for v in ty - tx:
            dv = dec(v)
            if dv is None:
                continue
            for u, du in mine:
                if du is not dv and u.kind == v.kind:
                    parts = opposite(u, v)
                    if parts and parts != [(u, v)] and not self.definite(u, v):
                        return True
        return False

    def few_and_definite(self, x, y):
        """Before any case analysis, the two differ in a few places only, each one for certain."""
        parts = opposite(x, y, 3)
        return bool(parts) and parts != [(x, y)] and self.definite(x, y)

    def differs_in_part(self, x, y):
        """Too large to decide as a whole, but the few places where the two differ are decided one by one."""
        parts = opposite(x, y, 3)
        if not parts or parts == [(x, y)]:
            return False
        for u, v in parts:
            self.part = u, v
            cond = any(t.kind == "op" and t.args[0] in ("not", "and", "or", "in", "not in", "is", "is not", "==", "!=", "<", "<=", ">", ">=") for t in (u, v))
            r = equal(ITE(u, C(1), C(0)), ITE(v, C(1), C(0)), limit=self.limit) if cond else equal(u, v, limit=self.limit)
            if r.ok is not False or not self.definite(u, v):
                return False
        return True

    def loop_orders(self):
        """Ways to pair the loops: specification loop id -> code loop id, same nesting and kinds; textual order first."""
        a, b = self.a.loops, self.b.loops
        if len(a) != len(b):
            return

        def go(j, m):
            if j == len(b):
                yield dict(m)
                return
            par = m[b[j].parent.id] if b[j].parent else None
            for x in sorted(a, key=lambda x: (x.id != j, x.id)):
                if x.id not in m.values() and x.kind == b[j].kind and (x.parent.id if x.parent else None) == par:
                    m[j] = x.id
                    yield from go(j + 1, m)
                    del m[j]
        yield from go(0, {})

    def renamings(self):
        a, b = self.a, self.b
        pm = dict(zip(b.fi.param_names, a.fi.param_names)) if len(b.fi.param_names) == len(a.fi.param_names) else {}
        pm = {k: v for k, v in pm.items() if k != v and k not in a.fi.param_names}
        # loop variables of the specification without a namesake: one code name per specification name, over all loops
        loops_of = lambda k: {n: frozenset(l.id for l in k.loops if n in l.carried) for n in {n for l in k.loops for n in l.carried}}
        ca, uses = loops_of(a), {}
        for l in b.loops:
            for n in self.used(b, l.id):
                uses.setdefault(n, set()).add(self.order[l.id])
        miss = sorted(n for n, ls in uses.items() if not ls <= ca.get(n, frozenset()))
        taken = {n for n in uses if n not in miss}

        def start(k, n):
            for l in k.loops:
                if n in l.carried:
                    return l.carried[n][0]

        def fits(m, n):
            if n in taken or not uses[m] <= ca[n]:
                return False
            x, y = start(a, n), start(b, m)
            return not (x is not None and y is not None and x.kind == "c" and y.kind == "c" and x is not y)

        cands = {m: [n for n in sorted(ca) if fits(m, n)] for m in miss}
        miss.sort(key=lambda m: len(cands[m]))

        def assign(i, used_):
            if i == len(miss):
                yield {}
                return
            for n in cands[miss[i]]:
                if n not in used_:
                    for rest in assign(i + 1, used_ | {n}):
                        yield {**rest, **{(miss[i], l): n for l in uses[miss[i]]}}
        lvopts = list(itertools.islice(assign(0, frozenset()), 400)) or [{}]
        news = {}
        for k, n in b.flow.nalloc.items():
            if n > 1:
                news[k] = n
        nopts = []
        for k, n in news.items():
            nk = Renaming(params=pm)(k)
            perms = list(itertools.islice(itertools.permutations(range(n)), 24))
            an = [a.flow.newnames.get(T("new", i, nk)) for i in range(n)]
            bn = [b.flow.newnames.get(T("new", i, k)) for i in range(n)]
            if None not in an and len(set(an)) == n and set(an) == set(bn):
                perms.insert(0, tuple(an.index(x) for x in bn))
            nopts.append([{(nk, i): p for i, p in enumerate(perm)} for perm in perms])
        cnt = 0
        for combo in itertools.product(*nopts):
            new = {k: v for d in combo for k, v in d.items()}
            for lvs in lvopts:
                cnt += 1
                if cnt > 500:
                    return
                yield Renaming(lvs, new, pm)

    def used(self, k, lid):
        """Loop-carried variables that matter for what the kernel leaves behind."""
        if not hasattr(k, "_used"):
            lv = lambda ts: {(x.args[0], x.args[1]) for t in ts if isinstance(t, T) for x in subterms(t) if x.kind in ("lv", "after")}
            todo, u = lv(self.outputs(k, False)), set()
            byid = {l.id: l for l in k.loops}
            while todo:
                n, l = todo.pop()
                if (n, l) not in u:
                    u.add((n, l))
                    todo |= lv(byid[l].carried.get(n, ()))
            k._used = u
        return sorted(n for n, l in k._used if l == lid)

    def mentions(self, base):
        """Does the code still build and use this array?"""
        if not hasattr(self, "_ment"):
            self._ment = set()
            for t in self.outputs(self.a):
                self._ment.update(subterms(t))
        return base in self._ment

    def makes(self, name):
        """Does the code call something of this name anywhere?"""
        if not hasattr(self, "_makes"):
            terms = {x for t in self.outputs(self.a) if isinstance(t, T) for x in subterms(t)}
            effects = {v for x in terms if x.kind == "seq" for v in x.args[1:]} - {v for x in terms if x.kind != "seq" for v in flat(x.args) if isinstance(v, T)}
            self._makes = {h.lstrip(".") for x in terms - effects if x.kind == "f" for h in heads(T("f", x.args[0], (), ()))}
        return name in self._makes

    def outputs(self, k, carried=True):
        yield k.ret
        for h in [k.heap] + [l.heap for l in k.loops] + [l.pre for l in k.loops]:
            for loc, v in h.items():
                yield loc
                yield v
        yield from k.raises
        for l in k.loops:
            yield from l.iter
            yield l.entry
            yield from l.raises
            yield from l.breaks
            for i, u in l.carried.values() if carried else ():
                yield i
                yield u

    def shared_params(self):
        """Parameters of both sides that carry an object of the caller."""
        own = lambda fi: {x.arg for x in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs} if hasattr(fi.node, "args") else set()
        return own(self.a.fi) & own(self.b.fi)

    def first(self, lid):
        """Where the positions of a loop start, when that is a constant."""
        lp = self.a.flow.loops[lid] if isinstance(lid, int) and lid < len(self.a.flow.loops) else None
        if lp is None or lp.kind not in ("range", "iter"):
            return None
        if lp.kind == "iter":
            return C(0) if len(lp.iter) == 1 and lp.enumerated else None
        return lp.iter[0] if lp.iter[0].kind == "c" and lp.iter[2] is C(1) else None

    def compare(self, ren):
        a, b = self.a, self.b
        out = []
        self.need, done = set(), set()

        def need_of(t):
            for x in subterms(t):
                if x.kind in ("lv", "after"):
                    self.need.add((x.args[0], x.args[1]))

        def cmp(what, where, x, y, boolean=False, hyp=()):
            """x: code, y: spec (already renamed)"""
            if boolean:
                x, y = ITE(x, C(1), C(0)), ITE(y, C(1), C(0))
            need_of(y)
            if self.budget is not None and sum(r[0] is not True for r in out) > self.budget:
                raise Worse
            if x is y:
                out.append((True, what, where, ""))
                return
            r = equal(x, y, limit=self.limit, hyp=hyp)
            if r.ok is not True:
                rows = [z for z in subterms(T("tup", x, y)) if z.kind == "it"]
                starts = [T("op", "<=", lo, z) for z in rows for lo in [self.first(z.args[0])] if lo is not None]
                if starts:      # positions start where their loop does
                    r2 = equal(x, y, limit=self.limit, hyp=tuple(hyp) + tuple(starts))
                    r = r2 if r2.ok is not None else r
            if r.ok is True:
                out.append((True, what, where, ""))
            elif r.ok is False:
                d = r.diff or (x, y)
                sure = (self.definite(*d) or d[0] is not x and self.few_and_definite(x, y)) and not self.respelled_test(x, y, r.facts)
                ok = False if sure else "lost" if d[1].kind == "seq" and d[1].args[0] is d[0] else None
                out.append((ok, what, where, f"{what} is {show(d[0])[:160]} where the specification has {show(d[1])[:160]} (case: {case_text(r.facts, 8)})"))
            else:
                ok = False if self.differs_in_part(x, y) else None
                out.append((ok, what, where, f"{what}: " + (f"{show(self.part[0])[:160]} where the specification has {show(self.part[1])[:160]}" if ok is False else r.why)))

        def uncopied(x, y):
            """x is the caller's own object where y is the copy made of it"""
            return any(isinstance(v, T) and source_of_copy(v) is u and root(u).kind == "p" for u, v in opposite(x, y) or [(x, y)])

        def cmp_heap(what, where, ha, hb):
            ca = Canon(Facts())
            ka = {}
            for loc in ha:
                ka.setdefault(ca.key(loc), loc)
            left = dict(ka)
            miss = []
            for loc, v in sorted(hb.items(), key=lambda x: x[0].uid):
                rl = ren(loc)
                need_of(rl)
                k = ca.key(rl)
                if k in left:
                    la = left.pop(k)
                    n = len(out)
                    cmp(f"{what} {show(rl)[:80]}", where, ha[la], ren(v))
                    if out[n][0] is None and rl.args[0].kind == "calls" and ha[la].kind == "seq" and ren(v).kind == "seq" and uncopied(ha[la].args[1], ren(v).args[1]):
                        out[n] = (False,) + out[n][1:]
                else:
                    miss.append((rl, v))
            # locations that differ only in the index: compare the index
            for rl, v in miss:
                cands = [k for k, loc in left.items() if loc.args[0] is rl.args[0]]
                same = [m for m, _ in miss if m.args[0] is rl.args[0]]
                if len(cands) == 1 and len(same) == 1 and rl.args[1].kind != "c":
                    la = left.pop(cands[0])
                    cmp(f"the index written in {show(rl.args[0])[:60]}", where, la.args[1], rl.args[1])
                    cmp(f"{what} {show(rl)[:80]}", where, ha[la], ren(v))
                elif any(l.kind == rl.kind and uncopied(l.args[0], rl.args[0]) for l in left.values()):
                    out.append((False, f"{what} {show(rl)[:80]}", where, f"the object handed in is written to instead of the copy {show(rl.args[0])[:80]}"))
                elif rl.kind == "i" and rl.args[1].kind == "c" and isinstance(cval(rl.args[1]), str) and \
                        any(l.kind == "i" and l.args[0] is rl.args[0] for l in ha):
                    out.append((False, f"{what} {show(rl)[:80]}", where, f"field {cval(rl.args[1])!r} of {show(rl.args[0])[:60]} is not written"))
                elif rl.args[0].kind == "calls":
                    f = rl.args[0].args[0]
                    lost = not any(l.args[0].kind == "calls" for l in left.values()) and \
                        (f.kind in ("p", "g") or f.kind == "a" and f.args[1] not in NEUTRAL and not self.makes(f.args[1]))
                    out.append(("lost" if lost else None, f"{what} {show(rl)[:80]}", where, f"the call {show(v)[:160]} is not made"))
                else:
                    unused = [k for k, l in left.items() if l.args[0].kind == "calls" and ha[l].kind == "seq" and ha[l].args[1] in set(subterms(ren(v)))]
                    dropped = len(unused) == len(left) and not any(h.startswith("?") for h in heads(rl)) and self.mentions(rl.args[0])
                    out.append((False if dropped else None, f"{what} {show(rl)[:80]}", where, f"no store to {show(rl)[:100]} found"))
            for k, loc in left.items():
                if any(l.args[0] is loc.args[0] for l in map(ren, hb)) and loc.args[1].kind == "c":
                    continue
                if ha[loc] is loc:
                    continue
                own = handed_in(loc.args[0]) if loc.kind == "i" else None
                foreign = own in self.shared_params() and not any(handed_in(ren(l).args[0]) == own for l in hb)
                out.append((False if foreign else None, f"{what} {show(loc)[:80]}", where, f"store to {show(loc)[:100]} is not in the specification"))

        inv_order = {v: k for k, v in self.order.items()}
        for lb in b.loops:
            la = a.loops[self.order[lb.id]]
            w = la.where()
            if len(la.iter) != len(lb.iter):
                out.append((None, "iteration space", w, "iteration space has another form"))
                continue
            for nm, x, y in zip(("start", "stop", "step"), la.iter, lb.iter):
                cmp(f"loop {nm}" if la.kind == "range" else "loop condition", w, x, ren(y), boolean=la.kind == "while")
            ea, eb = la.entry, ren(lb.entry)
            if ea is not eb and la.kind == "range" and all(len(l.iter) == 3 and l.iter[2] is C(1) for l in (la, lb)):     # an empty loop need not be entered
                lt = lambda it: a.flow.compare("<", it[0], it[1])
                ea, eb = AND(ea, lt(la.iter)), AND(eb, lt([ren(x) for x in lb.iter]))
            cmp("loop entry condition", w, ea, eb, boolean=True)
            cmp_heap("before the loop", w, la.pre, lb.pre)
            cmp_heap("one iteration leaves in", w, la.heap, lb.heap)
            if self.want_raises:
                cmp("the condition for raising", w, OR(*la.raises), ren(OR(*lb.raises)), boolean=True)
            cmp("the condition for leaving the loop", w, OR(*la.breaks, *la.returns), ren(OR(*lb.breaks, *lb.returns)), boolean=True)
        if self.want_raises:
            cmp("the condition for raising", a.fi.loc(), OR(*a.raises), ren(OR(*b.raises)), boolean=True)
        cmp_heap("at the end", a.fi.loc(), a.heap, b.heap)
        cmp("the result", a.fi.loc(), a.ret, ren(b.ret))
        while True:
            todo = sorted(x for x in self.need if x not in done)
            if not todo:
                break
            inv = {(v, k[1]): k[0] for k, v in ren.lv.items()}
            for n, lid in todo:
                done.add((n, lid))
                la, lb = a.loops[lid], b.loops[inv_order[lid]]
                bn = inv.get((n, lid), n)
                if n not in la.carried or bn not in lb.carried:
                    if bn in lb.carried:
                        out.append((None, f"variable {n}", la.where(), f"loop-carried {n} has no counterpart"))
                    continue
                ia, ua = la.carried[n]
                ib, ub = lb.carried[bn]
                if ib is not UNDEF:
                    cmp(f"the start value of {n}", la.where(), ia, ren(ib))
                cmp(f"the step of {n}", la.where(), ua, ren(ub))
        # a call the specification makes and the code does not: certain when the code has no effects of its own instead
        extra = any(r[0] is None and r[3].endswith("is not in the specification") for r in out)
        return [((None if extra else False), r[1], r[2], r[3].replace("[0] is ", ": a call is missing, ", 1)) if r[0] == "lost" else r for r in out]


def settled_reads(k):
    """A cell of a new array that only the iteration at its own index writes still holds the fill value before it is written."""
    sites = {}
    for l in [None] + k.loops:
        for h in ([k.heap] if l is None else [l.heap]):
            for loc in h:
                b = loc
                while b.kind == "i" and b.args[0].kind == "i":
                    b = b.args[0]
                if b.kind == "i" and b.args[0].kind == "new":
                    sites.setdefault(b.args[0], set()).add((loc, l.id if l is not None else None))
    byid = {l.id: l for l in k.loops}
    for new, ss in sites.items():
        norm = new.args[1]
        if len(ss) != 1 or norm.kind != "alloc" or norm.args[1].kind != "c" or norm.args[1] is NONE:
            continue
        (loc, lid), = ss
        if lid is None or loc.args[0] is not new:
            continue
        idx = loc.args[1].args if loc.args[1].kind == "tup" else (loc.args[1],)
        its = {x for t in idx for x in subterms(t) if x.kind == "it"}
        l, own, born = byid[lid], True, k.flow.born.get(new)
        while l is not None and l is not born:
            own = own and T("it", l.id) in its
            l = l.parent
        if own and all(x.kind == "it" or x.kind == "op" and x.args[0] == "+" for x in idx):
            l = byid[lid]
            l.heap[loc] = rewrite(l.heap[loc], lambda t: norm.args[1] if t is loc else None, {})


def previous_cells(k):
    """A variable carried from one iteration to the next that always equals the cell written last: the cell, from the second iteration on."""
    for l in k.loops:
        if l.kind != "range" or l.iter[0] is not C(0) or l.iter[2] is not C(1) or any(b is not FALSE for b in l.breaks):
            continue
        it = T("it", l.id)
        for n, (init, upd) in list(l.carried.items()):
            if init is UNDEF or any(x.kind == "noiter" for x in subterms(upd)):
                continue
            for loc, v in l.heap.items():
                if v is not upd or loc.kind != "i" or loc.args[0].kind != "new":
                    continue
                idx = loc.args[1].args if loc.args[1].kind == "tup" else (loc.args[1],)
                if idx.count(it) != 1 or any(y.kind == "lv" and y.args[1] == l.id for x in idx for y in subterms(x)):
                    continue
                back = tuple(T("op", "-", it, C(1)) if x is it else x for x in idx)
                cell = T("i", loc.args[0], T("tup", *back) if loc.args[1].kind == "tup" else back[0])
                new = ITE(T("op", "==", it, C(0)), init, cell)
                lv, memo = T("lv", n, l.id), {}
                sub = lambda t: rewrite(t, lambda x: new if x is lv else None, memo)
                inside = [m for m in k.loops if m is l or descends(m, l)]
                for m in inside:
                    m.carried = {a: (sub(b) if m is not l else b, sub(c)) for a, (b, c) in m.carried.items()}
                    m.heap = {sub(a): sub(b) for a, b in m.heap.items()}
                    m.raises, m.breaks, m.returns = [sub(x) for x in m.raises], [sub(x) for x in m.breaks], [sub(x) for x in m.returns]
                    if m is not l:
                        m.pre = {sub(a): sub(b) for a, b in m.pre.items()}
                        m.entry, m.iter = sub(m.entry), tuple(sub(x) for x in m.iter)
                break


def descends(m, l):
    while m is not None and m is not l:
        m = m.parent
    return m is l


def again(res, build, run):
    """When the comparison did not succeed: once more in the normal forms of Norm."""
    global NORM
    if all(r[0] is True for r in res):
        return res
    keep = NORM
    try:
        NORM = Norm()
        ka = build(True)
        for norm in ka.flow.nalloc:
            if norm.kind == "alloc" and norm.args[1] is not NONE:
                NORM.fills[norm.args[0], norm.args[2]] = norm.args[1]
        plain = NORM.fills
        kb = build(False)
        NORM.fills = {}
        settled_reads(ka)
        settled_reads(kb)
        previous_cells(ka)
        previous_cells(kb)
        new = run(ka, kb)
    except Exception:
        return res
    finally:
        NORM = keep
    if all(r[0] is True for r in new):
        return new
    shifted = any(r[0] is False and r[1] == "loop start" for r in res)
    filled = any(n.kind == "alloc" and n.args[1] is NONE for n in getattr(build(False).flow, "nalloc", ())) and bool(plain) and \
        any(r[0] is False and "alloc<" in r[3] for r in res)
    looked_up = any(r[0] is False and ".get(" in r[3] for r in res)
    if (shifted or filled or looked_up) and not any(r[0] is False for r in new):
        return new
    return res


def narrowed(res, ka, kb, aspect):
    """With an aspect, a departure counts only when code and specification differ in that aspect as well."""
    if aspect is None or all(r[0] is not False for r in res):
        return res
    if aspect(ka) ^ aspect(kb):
        return res
    return [(None, w, at, "departs from its reference, but not in what this property is about: " + m) if ok is False else (ok, w, at, m) for ok, w, at, m in res]


def check_spec(ctx, rule, prog, code, spec, opaque=(), limit=3000, raises=True, args=None, facts=(), typing_mode=False, aspect=None):
    """Compare function `code` with specification `spec`; report through ctx."""
    if ONLY is not None and code.name not in ONLY:
        return
    ctx.unit(code.qualname)
    try:
        ka = Kernel(prog, code, opaque=opaque, args=args, facts=facts, typing_mode=typing_mode)
        kb = Kernel(prog, spec, opaque=opaque, args=args, facts=facts)
        res = Comparer(prog, ka, kb, limit, raises).run()
        res = again(res, lambda mine: Kernel(prog, code if mine else spec, opaque=opaque, args=args, facts=facts, typing_mode=mine and typing_mode),
                    lambda x, y: Comparer(prog, x, y, limit, raises).run())
        res = narrowed(res, ka, kb, aspect)
    except RecursionError:
        ctx.unknown(code.loc(), f"{code.name}: too deep")
        return
    except AnalysisError:
        raise
    except Exception as e:      # a construct the evaluator does not model: not an answer about this function
        ctx.unknown(code.loc(), f"{code.name}: {type(e).__name__} {e}"[:200])
        return
    for ok, what, where, msg in res:
        if ok is True:
            ctx.ok(rule)
        elif ok is False:
            ctx.violate(rule, f"{code.qualname}:{what[:90]}", where, f"{code.name}: {msg}")
        else:
            ctx.unknown(where, f"{code.name}: {msg}")
