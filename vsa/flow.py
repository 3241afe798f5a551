"""Control-flow skeleton of the dataflow analyses (structured Python ASTs).

A `Flow` subclass supplies the abstract values: `expr`, `join_val`, `assume`.
The skeleton does statement sequencing, branch joins, loops to a fixpoint with
widening, early exits, try/with, and call contexts.
"""
import ast


class State:
    __slots__ = ("vars", "heap", "aux", "dead")

    def __init__(self, vars=None, heap=None, aux=None):
        self.vars = {} if vars is None else vars
        self.heap = {} if heap is None else heap
        self.aux = aux          # immutable analysis specific component
        self.dead = False       # a call that cannot return was evaluated in this state

    def copy(self):
        c = State(dict(self.vars), dict(self.heap), self.aux)
        c.dead = self.dead
        return c

    def same(self, o):
        return self.vars == o.vars and self.heap == o.heap and self.aux == o.aux


class Frame:
    def __init__(self, fi, outer=None):
        self.fi = fi
        self.outer = outer
        self.returns = []       # (value, node, state)
        self.raises = []        # (node, state)
        self.loops = []         # stack of [breaks, continues]


class Flow:
    MAX_ITER = 8
    WIDEN_AFTER = 2
    MISSING = None              # value of a variable unbound on one side of a join

    # ---- to be overridden -------------------------------------------------
    def join_val(self, a, b):
        return a if a == b else None

    def widen_val(self, key, old, new, loop):
        return self.join_val(old, new)

    def expr(self, node, st, fr):
        raise NotImplementedError

    def assume(self, test, truth, st, fr):
        """Refined copy of st, or None when the branch is infeasible."""
        return st

    def bind(self, target, value, st, fr, node):
        raise NotImplementedError

    def augassign(self, s, st, fr):
        raise NotImplementedError

    def iter_value(self, s, it, st, fr):
        return it

    def join_aux(self, a, b):
        return a

    def on_stmt(self, s, st, fr):
        pass

    def on_delete(self, t, st, fr):
        if isinstance(t, ast.Name):
            st.vars.pop(t.id, None)

    def on_func_def(self, s, st, fr):
        pass

    def enter_loop(self, s, st, fr):
        pass

    # ---- joins -------------------------------------------------------------
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = State(aux=self.join_aux(a.aux, b.aux) if a.aux != b.aux else a.aux)
        for k in a.vars.keys() | b.vars.keys():
            out.vars[k] = self._jv(a.vars, b.vars, k)
        for k in a.heap.keys() | b.heap.keys():
            out.heap[k] = self._jh(a.heap, b.heap, k)
        return out

    def _jv(self, x, y, k):
        if k not in x:
            return self.missing(k, y[k])
        if k not in y:
            return self.missing(k, x[k])
        return x[k] if x[k] == y[k] else self.join_val(x[k], y[k])

    def missing(self, k, v):
        return v

    def _jh(self, x, y, k):
        if k not in x:
            return self.missing_heap(k, y[k])
        if k not in y:
            return self.missing_heap(k, x[k])
        return x[k] if x[k] == y[k] else self.join_val(x[k], y[k])

    def missing_heap(self, k, v):
        return v

    def widen(self, old, new, loop):
        out = State(aux=self.join_aux(old.aux, new.aux) if old.aux != new.aux else old.aux)
        for k in old.vars.keys() | new.vars.keys():
            if k in old.vars and k in new.vars and old.vars[k] != new.vars[k]:
                out.vars[k] = self.widen_val(k, old.vars[k], new.vars[k], loop)
            else:
                out.vars[k] = self._jv(old.vars, new.vars, k)
        for k in old.heap.keys() | new.heap.keys():
            if k in old.heap and k in new.heap and old.heap[k] != new.heap[k]:
                out.heap[k] = self.widen_val(k, old.heap[k], new.heap[k], loop)
            else:
                out.heap[k] = self._jh(old.heap, new.heap, k)
        return out

    # ---- statements ----------------------------------------------------------
    def block(self, body, st, fr):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st, fr)
            if st is not None and st.dead:
                return None
        return st

    def stmt(self, s, st, fr):
        self.on_stmt(s, st, fr)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.expr(c, st, fr)
            return st
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        self.expr(s.value, st, fr)
        return st

    def s_Assign(self, s, st, fr):
        v = self.expr(s.value, st, fr)
        for t in s.targets:
            self.bind(t, v, st, fr, s)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.bind(s.target, self.expr(s.value, st, fr), st, fr, s)
        return st

    def s_AugAssign(self, s, st, fr):
        self.augassign(s, st, fr)
        return st

    def s_Return(self, s, st, fr):
        v = self.expr(s.value, st, fr) if s.value is not None else self.none()
        if st.dead:
            return None
        fr.returns.append((v, s, st))
        return None

    def none(self):
        return None

    def s_Raise(self, s, st, fr):
        if s.exc is not None:
            self.expr(s.exc, st, fr)
        fr.raises.append((s, st))
        return None

    def s_Pass(self, s, st, fr):
        return st

    def s_Global(self, s, st, fr):
        return st

    s_Nonlocal = s_Global

    def s_Import(self, s, st, fr):
        return st

    s_ImportFrom = s_Import

    def s_Assert(self, s, st, fr):
        self.expr(s.test, st, fr)
        return self.assume(s.test, True, st, fr)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            self.on_delete(t, st, fr)
        return st

    def s_FunctionDef(self, s, st, fr):
        self.on_func_def(s, st, fr)
        return st

    def s_ClassDef(self, s, st, fr):
        return st

    def s_If(self, s, st, fr):
        self.expr(s.test, st, fr)
        if st.dead:
            return None
        a = self.assume(s.test, True, st.copy(), fr)
        b = self.assume(s.test, False, st.copy(), fr)
        a = self.block(s.body, a, fr) if a is not None else None
        b = self.block(s.orelse, b, fr) if b is not None else None
        return self.join(a, b)

    def loop(self, s, st, fr, head_fn, body_fn):
        """head_fn(state)->(enter, exit); body executes s.body."""
        head = st
        breaks = []
        exit_st = None
        for it in range(self.MAX_ITER + 4):
            breaks, conts = [], []
            fr.loops.append((breaks, conts))
            nret, nrai = len(fr.returns), len(fr.raises)
            enter, exit_st = head_fn(head.copy())
            out = None
            if enter is not None:
                out = self.block(s.body, enter, fr)
            for c in conts:
                out = self.join(out, c)
            fr.loops.pop()
            if out is None:
                break
            new = self.join(head, out)
            if it >= self.WIDEN_AFTER:
                new = self.widen(head, new, s)
            if new.same(head):
                break
            if it < self.MAX_ITER + 3:
                del fr.returns[nret:]
                del fr.raises[nrai:]
            head = new
        res = exit_st
        if s.orelse and res is not None:
            res = self.block(s.orelse, res, fr)
        for b in breaks:
            res = self.join(res, b)
        return res

    def s_For(self, s, st, fr):
        it = self.expr(s.iter, st, fr)
        if st.dead:
            return None
        self.enter_loop(s, st, fr)

        def head(h):
            e = h.copy()
            self.bind(s.target, self.iter_value(s, it, e, fr), e, fr, s)
            return e, h
        return self.loop(s, st, fr, head, None)

    def s_While(self, s, st, fr):
        self.enter_loop(s, st, fr)

        def head(h):
            self.expr(s.test, h, fr)
            a = self.assume(s.test, True, h.copy(), fr)
            b = self.assume(s.test, False, h.copy(), fr)
            return a, b
        return self.loop(s, st, fr, head, None)

    def s_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1][0].append(st)
        return None

    def s_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1][1].append(st)
        return None

    def s_With(self, s, st, fr):
        for i in s.items:
            v = self.expr(i.context_expr, st, fr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, self.with_value(v, i), st, fr, s)
        return self.block(s.body, st, fr)

    def with_value(self, v, item):
        return v

    def s_Try(self, s, st, fr):
        pre = st.copy()
        body = self.block(s.body, st, fr)
        if body is not None and s.orelse:
            body = self.block(s.orelse, body, fr)
        res = body
        mid = self.join(pre.copy(), body.copy() if body is not None else None)
        for h in s.handlers:
            hs = mid.copy()
            if h.name:
                self.bind(ast.Name(id=h.name, ctx=ast.Store()), self.exc_value(h), hs, fr, h)
            res = self.join(res, self.block(h.body, hs, fr))
        if s.finalbody:
            f = res if res is not None else mid
            alive = res is not None
            f = self.block(s.finalbody, f, fr)
            res = f if alive else None
        return res

    def exc_value(self, h):
        return self.none()

    # ---- entry -----------------------------------------------------------------
    def run(self, fi, st):
        fr = Frame(fi)
        node = fi.node
        if isinstance(node, ast.Lambda):
            v = self.expr(node.body, st, fr)
            fr.returns.append((v, node.body, st))
            return fr
        end = self.block(node.body, st, fr)
        if end is not None:
            fr.returns.append((self.none(), None, end))
        fr.end = end
        return fr
