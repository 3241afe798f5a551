"""Development aid: behaviour-preserving edits of functions; a check must stay quiet on them.
   refac.py PID path [-n MAX per function] func [func...]   (func '*' = all; Class.method allowed)"""
import ast, copy, importlib, os, random, sys
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vsa import kernel
from vsa.core import Ctx, load_known
from vsa.program import Program

NEG = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
FLIP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
INTCMP = (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn)


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def neg(t):
    """not t, written another way (comparisons of order stay under not: NaN)."""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], INTCMP):
        return ast.Compare(t.left, [NEG[type(t.ops[0])]()], t.comparators)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(ast.Not(), t)


def simple(s):
    return isinstance(s, (ast.Assign, ast.AugAssign)) and all(isinstance(t, ast.Name) for t in (s.targets if isinstance(s, ast.Assign) else [s.target])) \
        and not any(isinstance(x, (ast.Call, ast.Lambda, ast.Await, ast.Yield)) for x in ast.walk(s.value))


def jumps(b):
    return any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.Yield, ast.Global, ast.Nonlocal)) for s in b for x in ast.walk(s))


def pure(e):
    return not any(isinstance(x, (ast.Call, ast.Lambda, ast.Await, ast.Yield, ast.NamedExpr, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)) for x in ast.walk(e))


def more(fn, n, i, s, j, blk, fname, mk, njit):
    """Rewritings of loops, comprehensions, calls and branches."""
    def put(new):
        def change(c, m):
            b = getattr(m, fname)
            b[j:j + 1] = new(b[j])
            return c
        return mk(i, change)

    def put2(k, new):
        def change(c, m):
            b = getattr(m, fname)
            b[j:j + k] = new(b[j:j + k])
            return c
        return mk(i, change)
    N = lambda v, st=False: ast.Name(v, ast.Store() if st else ast.Load())
    # comprehension -> loop
    if not njit and isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1 and (isinstance(s, ast.Return) or isinstance(s.targets[0], ast.Name)):
        used = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and not any(x is y for y in ast.walk(s.value))}
        tg = names(s.value.generators[0].target)
        if not tg & used:
            def c2l(s):
                v, g = s.value, s.value.generators[0]
                nm = s.targets[0].id if isinstance(s, ast.Assign) and s.targets[0].id not in names(v) else "gathered"
                lst = isinstance(v, ast.ListComp)
                one = ast.Expr(ast.Call(ast.Attribute(N(nm), "append", ast.Load()), [v.elt], [])) if lst else ast.Assign([ast.Subscript(N(nm), v.key, ast.Store())], v.value, lineno=1)
                body = [one]
                for q in reversed(g.ifs):
                    body = [ast.If(q, body, [])]
                out = [ast.Assign([N(nm, True)], ast.List([], ast.Load()) if lst else ast.Dict([], []), lineno=1), ast.For(g.target, g.iter, body, [], lineno=1)]
                if isinstance(s, ast.Return):
                    out.append(ast.Return(N(nm)))
                elif nm == "gathered":
                    out.append(ast.Assign(s.targets, N(nm), lineno=1))
                return out
            yield f"{s.lineno}: comprehension to loop", put(c2l), []
    # loop -> comprehension
    if not njit and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and j + 1 < len(blk) and isinstance(blk[j + 1], ast.For) and not blk[j + 1].orelse:
        x, lp = s.targets[0].id, blk[j + 1]
        empty = isinstance(s.value, ast.List) and not s.value.elts and "l" or (isinstance(s.value, ast.Dict) and not s.value.keys or isinstance(s.value, ast.Call) and getattr(s.value.func, "id", "") == "dict" and not s.value.args and not s.value.keywords) and "d" or None
        b, conds = lp.body, []
        while len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
            conds.append(b[0].test)
            b = b[0].body
        if empty and len(b) == 1 and x not in names(lp.iter) and not any(x in names(q) for q in conds):
            b = b[0]
            if empty == "l" and isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" and isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == x and x not in names(b.value.args[0]):
                yield f"{s.lineno}: loop to comprehension", put2(2, lambda ss, e=b.value.args[0]: [ast.Assign(ss[0].targets, ast.ListComp(e, [ast.comprehension(ss[1].target, ss[1].iter, conds, 0)]), lineno=1)]), []
            if empty == "d" and isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Subscript) and isinstance(b.targets[0].value, ast.Name) and b.targets[0].value.id == x and x not in names(b.value) and x not in names(b.targets[0].slice):
                yield f"{s.lineno}: loop to comprehension", put2(2, lambda ss, b=b: [ast.Assign(ss[0].targets, ast.DictComp(b.targets[0].slice, b.value, [ast.comprehension(ss[1].target, ss[1].iter, conds, 0)]), lineno=1)]), []
    # enumerate -> range(len)
    if not njit and isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, "id", "") == "enumerate" and isinstance(s.iter.args[0], ast.Name) and isinstance(s.target, ast.Tuple) and \
            isinstance(s.target.elts[0], ast.Name) and len(s.iter.args) == 1 and s.iter.args[0].id not in set().union(*[names(y, ast.Store) for y in s.body]):
        yield f"{s.lineno}: enumerate to range", put(lambda s: [ast.For(s.target.elts[0], ast.Call(N("range"), [ast.Call(N("len"), [s.iter.args[0]], [])], []),
                [ast.Assign([s.target.elts[1]], ast.Subscript(N(s.iter.args[0].id), N(s.target.elts[0].id), ast.Load()), lineno=1)] + s.body, s.orelse, lineno=1)]), []
    # range -> while (Python)
    if not njit and isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, "id", "") == "range" and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) and not s.orelse and \
            not any(isinstance(x, ast.Continue) for y in s.body for x in ast.walk(y)) and s.target.id not in set().union(*[names(y, ast.Store) for y in s.body]) and pure(s.iter.args[0]) and \
            not names(s.iter.args[0]) & set().union(*[names(y, ast.Store) for y in s.body]):
        yield f"{s.lineno}: for to while", put(lambda s: [ast.Assign([s.target], ast.Constant(0), lineno=1), ast.While(ast.Compare(N(s.target.id), [ast.Lt()], [s.iter.args[0]]),
                                      s.body + [ast.AugAssign(N(s.target.id, True), ast.Add(), ast.Constant(1))], [])]), []
    # keyword arguments gathered first
    c = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
    if not njit and isinstance(c, ast.Call) and len(c.keywords) >= 2 and all(k.arg for k in c.keywords) and all(pure(a) for a in c.args) and pure(c.func):
        def kwd(s):
            kws = s.value.keywords
            s.value.keywords = [ast.keyword(None, N("call_kwargs"))]
            return [ast.Assign([N("call_kwargs", True)], ast.Call(N("dict"), [], kws), lineno=1), s]
        yield f"{s.lineno}: gather keywords", put(kwd), []

        def kwd2(s):
            kws = s.value.keywords
            s.value.keywords = [ast.keyword(None, N("call_kwargs"))]
            return [ast.Assign([N("call_kwargs", True)], ast.Dict([ast.Constant(k.arg) for k in kws[:-1]], [k.value for k in kws[:-1]]), lineno=1),
                    ast.Assign([ast.Subscript(N("call_kwargs"), ast.Constant(kws[-1].arg), ast.Store())], kws[-1].value, lineno=1), s]
        yield f"{s.lineno}: gather keywords by item", put(kwd2), []
    # a run of statements in a local function
    if not njit and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and not isinstance(s.value, ast.Constant) and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(s.value)) and \
            not any(isinstance(x, ast.Call) and getattr(x.func, "id", "") in ("super", "locals") for x in ast.walk(s.value)):
        yield f"{s.lineno}: local function {ast.unparse(s)[:30]!r}", put(lambda s: [ast.FunctionDef("_compute", ast.arguments([], [], None, [], [], None, []), [ast.Return(s.value)], [], None, lineno=1, type_params=[]),
                ast.Assign(s.targets, ast.Call(N("_compute"), [], []), lineno=1)]) if s.targets[0].id not in names(s.value) else put(lambda s: [s]), []
    # nested ifs merged
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
        yield f"{s.lineno}: merge ifs", put(lambda s: [ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])]), []
    # condition named
    if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
        yield f"{s.lineno}: name condition", put(lambda s: [ast.Assign([N("cond_value", True)], s.test, lineno=1), ast.If(N("cond_value"), s.body, s.orelse)]), []
    # else after return dropped
    if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and fname == "body":
        yield f"{s.lineno}: no else after return", put(lambda s: [ast.If(s.test, s.body, [])] + s.orelse), []
    # the tail of a branch repeated in both
    if isinstance(s, ast.If) and s.orelse and j + 2 == len(blk) and isinstance(blk[-1], ast.Return) and n is fn and not isinstance(s.body[-1], (ast.Return, ast.Raise)) and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
        yield f"{s.lineno}: return in both branches", put2(2, lambda ss: [ast.If(ss[0].test, ss[0].body + [copy.deepcopy(ss[1])], ss[0].orelse + [copy.deepcopy(ss[1])])]), []
    # loop without break, continue guard
    if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
        yield f"{s.lineno}: nested to guard", put(lambda s: [ast.For(s.target, s.iter, [ast.If(neg(s.body[0].test), [ast.Continue()], [])] + s.body[0].body, s.orelse, lineno=1)]), []
    # f-string -> concatenation is rare; "x is None" chains -> ternary
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.body[0].targets[0], ast.Name) and len(s.body[0].targets) == 1 and s.body[0].targets[0].id in names(s.test):
        yield f"{s.lineno}: default as expression", put(lambda s: [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, N(s.body[0].targets[0].id)), lineno=1)]), []
    # unpacking through a temporary
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and all(isinstance(e, ast.Name) for e in s.targets[0].elts):
        yield f"{s.lineno}: unpack by index", put(lambda s: [ast.Assign([N("result_tuple", True)], s.value, lineno=1)] + [ast.Assign([e], ast.Subscript(N("result_tuple"), ast.Constant(k), ast.Load()), lineno=1) for k, e in enumerate(s.targets[0].elts)]), []


def edits(fn, njit, in_class):
    """(desc, function, [helper functions])"""
    nodes = list(ast.walk(fn))
    nested = {id(y) for x in nodes if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp, ast.ClassDef)) for y in ast.walk(x)}
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]}
    local = {x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params

    def mk(i, change):
        def make():
            c = copy.deepcopy(fn)
            return change(c, list(ast.walk(c))[i])
        return make

    for v in sorted(local):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn for x in nodes):
            break

        def ren(c, m, v=v):
            for x in ast.walk(c):
                if isinstance(x, ast.Name) and x.id == v:
                    x.id = v + "_renamed"
            return c
        yield f"rename {v}", mk(0, ren), []
    for i, n in enumerate(nodes):
        if id(n) in nested:
            continue
        if isinstance(n, ast.If) and n.orelse:
            def sw(c, m):
                m.test, m.body, m.orelse = neg(m.test), m.orelse, m.body
                return c
            yield f"{n.lineno}: swap if/else", mk(i, sw), []
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            def nest(c, m):
                vs = m.test.values
                m.test = vs[0]
                m.body = [ast.If(vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:]), m.body, [])]
                return c
            yield f"{n.lineno}: split and", mk(i, nest), []
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            def expand(c, m):
                for p in ast.walk(c):
                    for f, b in ast.iter_fields(p):
                        if isinstance(b, list) and m in b:
                            b[b.index(m)] = ast.Assign([m.target], ast.BinOp(ast.Name(m.target.id, ast.Load()), m.op, m.value), lineno=m.lineno)
                return c
            if njit:
                yield f"{n.lineno}: expand augassign", mk(i, expand), []
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP:
            def flip(c, m):
                m.left, m.comparators, m.ops = m.comparators[0], [m.left], [FLIP[type(m.ops[0])]()]
                return c
            yield f"{n.lineno}: flip {ast.unparse(n)[:40]}", mk(i, flip), []
        if isinstance(n, ast.BoolOp):
            def dm(c, m):
                op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
                new = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in m.values]))
                for p in ast.walk(c):
                    for f, b in ast.iter_fields(p):
                        if b is m:
                            setattr(p, f, new)
                        elif isinstance(b, list) and m in b:
                            b[b.index(m)] = new
                return c
            par = [p for p in nodes if any(ch is n for ch in ast.iter_child_nodes(p))]
            if par and isinstance(par[0], (ast.If, ast.While, ast.IfExp)) and par[0].test is n:
                yield f"{n.lineno}: de morgan", mk(i, dm), []
        for fname in ("body", "orelse"):
            blk = getattr(n, fname, None)
            if not isinstance(blk, list) or not isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With)) or n is not fn and isinstance(n, ast.FunctionDef):
                continue
            for j, s in enumerate(blk):
                t = blk[j + 1] if j + 1 < len(blk) else None
                if t is not None and simple(s) and simple(t):
                    w1, w2 = names(s, ast.Store) | (names(s.target) if isinstance(s, ast.AugAssign) else set()), names(t, ast.Store) | (names(t.target) if isinstance(t, ast.AugAssign) else set())
                    if not (w1 & names(t)) and not (w2 & names(s)):
                        def so(c, m, j=j, fname=fname):
                            b = getattr(m, fname)
                            b[j], b[j + 1] = b[j + 1], b[j]
                            return c
                        yield f"{s.lineno}: reorder {ast.unparse(s)[:30]}", mk(i, so), []
                # temp for the value
                if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and \
                        not (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name)):
                    def tmp(c, m, j=j, fname=fname):
                        b = getattr(m, fname)
                        b.insert(j, ast.Assign([ast.Name("tmp_value", ast.Store())], b[j].value, lineno=b[j].lineno))
                        b[j + 1].value = ast.Name("tmp_value", ast.Load())
                        return c
                    yield f"{s.lineno}: temp {ast.unparse(s)[:30]}", mk(i, tmp), []
                # temp for a call argument
                if isinstance(s, (ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and s.value.args and isinstance(s.value.args[0], (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript)) and \
                        (isinstance(s.value.func, ast.Name) or isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name)):
                    def tmpa(c, m, j=j, fname=fname):
                        b = getattr(m, fname)
                        b.insert(j, ast.Assign([ast.Name("tmp_arg", ast.Store())], b[j].value.args[0], lineno=b[j].lineno))
                        b[j + 1].value.args[0] = ast.Name("tmp_arg", ast.Load())
                        return c
                    yield f"{s.lineno}: temp argument {ast.unparse(s)[:30]}", mk(i, tmpa), []
                # if/else assigning the same name -> conditional expression
                if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (s.body[0], s.orelse[0])) \
                        and s.body[0].targets[0].id == s.orelse[0].targets[0].id:
                    def ie(c, m, j=j, fname=fname):
                        b = getattr(m, fname)
                        x = b[j]
                        b[j] = ast.Assign(x.body[0].targets, ast.IfExp(x.test, x.body[0].value, x.orelse[0].value), lineno=x.lineno)
                        return c
                    yield f"{s.lineno}: to conditional expression", mk(i, ie), []
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                    def ei(c, m, j=j, fname=fname):
                        b = getattr(m, fname)
                        x = b[j]
                        b[j] = ast.If(x.value.test, [ast.Assign(x.targets, x.value.body, lineno=1)], [ast.Assign(copy.deepcopy(x.targets), x.value.orelse, lineno=1)])
                        return c
                    yield f"{s.lineno}: to if statement", mk(i, ei), []
                # guard clause: if c: continue ; rest  ->  if not c: rest
                if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and not s.orelse and j + 1 < len(blk) and isinstance(n, (ast.For, ast.While)) and fname == "body":
                    def gc(c, m, j=j, fname=fname):
                        b = getattr(m, fname)
                        b[j:] = [ast.If(neg(b[j].test), b[j + 1:], [])]
                        return c
                    yield f"{s.lineno}: guard to nested", mk(i, gc), []
                if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], ast.Return) and not s.orelse and j + 1 < len(blk) and isinstance(blk[-1], ast.Return):
                    def er(c, m, j=j, fname=fname):
                        b = getattr(m, fname)
                        b[j].orelse = b[j + 1:]
                        del b[j + 1:]
                        return c
                    yield f"{s.lineno}: early return to else", mk(i, er), []
                # for range -> while
                if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, "id", "") == "range" and len(s.iter.args) in (1, 2) and isinstance(s.target, ast.Name) and not s.orelse \
                        and not any(isinstance(x, ast.Continue) for y in s.body for x in ast.walk(y)) and njit and not (names(s.iter) & set().union(*[names(y, ast.Store) for y in s.body])) \
                        and s.target.id not in set().union(*[names(y, ast.Store) for y in s.body]):
                    def fw(c, m, j=j, fname=fname):
                        b = getattr(m, fname)
                        x = b[j]
                        a = x.iter.args
                        lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
                        b[j:j + 1] = [ast.Assign([x.target], lo, lineno=1), ast.While(ast.Compare(ast.Name(x.target.id, ast.Load()), [ast.Lt()], [hi]),
                                      x.body + [ast.AugAssign(ast.Name(x.target.id, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                        return c
                    yield f"{s.lineno}: for to while", mk(i, fw), []
                yield from more(fn, n, i, s, j, blk, fname, mk, njit)
                # helper extraction of a run of statements without jumps
                for ln in (1, 2, 4):
                    run = blk[j:j + ln]
                    if len(run) < ln or jumps(run) or any(isinstance(x, (ast.FunctionDef, ast.Import, ast.ImportFrom, ast.NamedExpr)) for y in run for x in ast.walk(y)) or isinstance(run[0], ast.Expr) and isinstance(run[0].value, ast.Constant):
                        continue
                    if any(isinstance(x, ast.Call) and getattr(x.func, "id", "") in ("super", "locals") for y in run for x in ast.walk(y)) or in_class and njit:
                        continue
                    stored = set().union(*[names(y, ast.Store) for y in run]) | {y.target.id for y in run if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name)}
                    loaded = set().union(*[names(y, ast.Load) for y in run]) | {x.target.id for y in run for x in ast.walk(y) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
                    # conservatively: names stored conditionally must also come in
                    comp = {x.id for y in run for z in ast.walk(y) if isinstance(z, ast.comprehension) for x in ast.walk(z.target) if isinstance(x, ast.Name)}
                    lam = {a.arg for y in run for z in ast.walk(y) if isinstance(z, ast.Lambda) for a in z.args.args}
                    cond = set().union(*[names(y, ast.Store) for y in run if not isinstance(y, (ast.Assign, ast.AugAssign))] or [set()]) - comp
                    if cond and not cond <= set().union(params, *[names(z, ast.Store) for z in fn.body if z.lineno < run[0].lineno and isinstance(z, ast.Assign)]):
                        continue
                    inner = {z.name for z in nodes if isinstance(z, ast.FunctionDef) and z is not fn}
                    if inner & (loaded | cond):
                        continue
                    imported = {(al.asname or al.name).split(".")[0] for z in ast.walk(fn) if isinstance(z, (ast.Import, ast.ImportFrom)) for al in z.names}
                    if imported & (loaded | cond) or any(isinstance(z, (ast.Import, ast.ImportFrom)) for y in run for z in ast.walk(y)):
                        continue
                    stored -= comp
                    ins = sorted((loaded | cond) & (params | local) - comp - lam)
                    # inputs not yet assigned: drop those first stored in the run
                    first = set()
                    seen = set()
                    for y in run:
                        ld = names(y, ast.Load) | ({y.target.id} if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) else set())
                        first |= {v for v in ld if v not in seen}
                        if isinstance(y, ast.Assign):
                            seen |= names(y, ast.Store)
                    ins = [v for v in ins if v in first or v in cond]
                    outs = sorted(stored)
                    if len(outs) > 4:
                        continue
                    ret = [ast.Return(ast.Tuple([ast.Name(v, ast.Load()) for v in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load()))] if outs else []
                    hname = "extracted_helper_nb" if njit else "_extracted_helper"
                    helper = ast.FunctionDef(hname, ast.arguments([], [ast.arg(v) for v in ins], None, [], [], None, []), copy.deepcopy(run) + ret,
                                             [ast.Name("njit", ast.Load())] if njit else [], None, lineno=1, type_params=[])
                    call = ast.Call(ast.Name(hname, ast.Load()), [ast.Name(v, ast.Load()) for v in ins], [])

                    def ex(c, m, j=j, fname=fname, ln=ln, outs=outs, call=call):
                        b = getattr(m, fname)
                        if outs:
                            t = ast.Tuple([ast.Name(v, ast.Store()) for v in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())
                            b[j:j + ln] = [ast.Assign([t], copy.deepcopy(call), lineno=1)]
                        else:
                            b[j:j + ln] = [ast.Expr(copy.deepcopy(call))]
                        return c
                    yield f"{run[0].lineno}: extract helper ({ln}) {ast.unparse(run[0])[:30]!r}", mk(i, ex), [helper]


BASE = None
KNOWN = {f["key"] for f in load_known()["findings"]}


def one(job):
    pid, path, name, desc, text = job
    if os.environ.get('ONLY'):
        kernel.ONLY = {name.split('.')[-1]}
    src = dict(BASE.sources)
    src[path] = text
    try:
        prog = Program(src)
        for k, v in BASE.__dict__.items():
            if k not in prog.__dict__:
                prog.__dict__[k] = v
        ctx = Ctx(pid, "quick", prog)
        importlib.import_module("vsa.checks." + pid.lower()).run(ctx)
        ctx.violations = [v for v in ctx.violations if v["key"] not in KNOWN]
        return (name, desc, len(ctx.violations), len(ctx.unresolved), ctx.violations[0]["msg"][:200] if ctx.violations else ctx.unresolved[0][:150] if ctx.unresolved else "")
    except Exception as e:
        return (name, desc, -1, 0, repr(e)[:200])


def jobs_for(pid, path, src, names_, limit, rnd):
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    out = []
    todo = []
    for st in tree.body:
        if isinstance(st, ast.FunctionDef):
            todo.append((st, st.name, False))
        elif isinstance(st, ast.ClassDef):
            todo += [(m, f"{st.name}.{m.name}", st) for m in st.body if isinstance(m, ast.FunctionDef)]
    for st, nm, cls in todo:
        if "*" not in names_ and nm not in names_ and nm.split(".")[0] + ".*" not in names_:
            continue
        njit = any("njit" in ast.unparse(d) for d in st.decorator_list)
        es = list(edits(st, njit, bool(cls)))
        if os.environ.get('KINDS'):
            es = [e for e in es if any(k in e[0] for k in os.environ['KINDS'].split(','))]
        if len(es) > limit:
            es = rnd.sample(es, limit)
        a = min([st.lineno] + [d.lineno for d in st.decorator_list])
        top = min([cls.lineno] + [d.lineno for d in cls.decorator_list]) if cls else a
        for d, m, hs in es:
            m = m()
            ast.fix_missing_locations(m)
            ind = " " * st.col_offset
            body = "\n".join(ind + l if l else l for l in ast.unparse(m).splitlines()) + "\n"
            htxt = "".join(ast.unparse(ast.fix_missing_locations(h)) + "\n\n\n" for h in hs)
            text = "".join(lines[:top - 1]) + htxt + "".join(lines[top - 1:a - 1]) + body + "".join(lines[st.end_lineno:])
            try:
                ast.parse(text)
            except SyntaxError:
                continue
            out.append((pid, path, nm, d, text))
    return out


def main():
    global BASE
    a = sys.argv[1:]
    limit = 25
    if "-n" in a:
        k = a.index("-n")
        limit = int(a[k + 1])
        del a[k:k + 2]
    pid, path, ns = a[0], a[1], a[2:]
    BASE = Program.load("/repo")
    js = jobs_for(pid, path, BASE.sources[path], ns, limit, random.Random(1))
    st = {}
    with Pool(int(os.environ.get("J","7")), maxtasksperchild=20) as p:
        for name, d, v, u, msg in p.imap(one, js):
            k = "ALARM" if v > 0 else "ERROR" if v < 0 else "unresolved" if u else "quiet"
            st[k] = st.get(k, 0) + 1
            if k in ("ALARM", "ERROR") or os.environ.get("ALL") and k != "quiet":
                print(f"{k} {name} {d} | {msg}", flush=True)
    print(pid, path, st)


if __name__ == "__main__":
    main()
