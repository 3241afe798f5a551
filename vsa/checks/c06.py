"""C06: options reach the computation they configure.

For every function and method of the package: parameters that nothing depends on (dead), parameters of the same name a
callee declares but is not given (dropped) or is given as a constant (overridden), options bound to a callee's parameter
of another option's name (exchanged), user keyword mappings merged under the library's defaults (overruled) and options
whose falsy values are replaced (falsy).
"""
import ast
import collections

from .. import pyref
from ..program import Assign, ClassInfo, FunctionInfo, bind_call, const, dotted, src, walk_scope
from .c06_accepted import ACCEPTED, DEAD_OK, FALSY_OK, OVERRULED_OK, SWAP_OK
from ..terms import T, show
from .scope import calls, everywhere, kernels, options, python
from .structure import late_binding, truncated

TECHNIQUE = "interprocedural binding of call arguments to parameters plus local def-use (liveness) over every function; reviewed list of intended non-forwardings"
LEVEL_NOTE = ("Decides that options are read, forwarded under their own name and not overridden or exchanged between layers resolved statically; calls through user callbacks, **kwargs "
              "dictionaries built elsewhere and dynamically attached methods are not followed. Whether a forwarded option has the right numerical effect is C07-C09, C15, C17, C20, C27.")
ASSUMPTIONS = ["A parameter and a callee's parameter of the same name mean the same option (exceptions are listed in c06_accepted.py with the reason)."]

SKIP = {"self", "cls", "engine", "_", "wrap_kwargs"}
RECEIVERS = {"wrapper": "vectorbt.base.array_wrapper.ArrayWrapper", "new_wrapper": "vectorbt.base.array_wrapper.ArrayWrapper",
             "grouper": "vectorbt.base.column_grouper.ColumnGrouper", "col_mapper": "vectorbt.records.col_mapper.ColumnMapper"}


def outer_most(fn):
    while fn.outer is not None:
        fn = fn.outer
    return fn


def resolve_callee(prog, call, fn):
    """(FunctionInfo, skip_self) or (None, False)."""
    f = call.func
    o = outer_most(fn)
    if isinstance(f, ast.Attribute):
        v = f.value
        if isinstance(v, ast.Name) and o.cls is not None and o.params and not o.is_static and v.id == o.params[0].name:
            m = o.cls.lookup(f.attr)
            if m is not None:
                return m, not m.is_static
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and o.cls is not None:
            for c in o.cls.mro()[1:]:
                if f.attr in c.methods:
                    return c.methods[f.attr], not c.methods[f.attr].is_static
        last = v.attr if isinstance(v, ast.Attribute) else v.id if isinstance(v, ast.Name) else None
        if last in RECEIVERS:
            c = prog.get(RECEIVERS[last])
            if isinstance(c, ClassInfo):
                m = c.lookup(f.attr)
                if m is not None and not m.is_property:
                    return m, not m.is_static
    e = prog.resolve(f, fn.module, fn)
    e = prog.deref(e) if e is not None else None
    if isinstance(e, FunctionInfo):
        if e.cls is not None:
            base = prog.resolve(f.value, fn.module, fn) if isinstance(f, ast.Attribute) else None
            return e, e.is_classmethod or not (e.is_static or isinstance(base, ClassInfo))
        return e, False
    if isinstance(e, ClassInfo):
        i = e.lookup("__init__")
        if i is not None:
            return i, True
    return None, False


def own_params(fn):
    return [p for p in fn.params if p.kind in ("pos", "kwonly", "var", "kw") and p.name not in ("self", "cls")]


def reassigned(fn):
    out = collections.defaultdict(list)
    for n in walk_scope(fn.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out[x.id].append(n.value)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Name) and n.value is not None:
            out[n.target.id].append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    out[x.id].append(n.iter)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            for x in ast.walk(n.optional_vars):
                if isinstance(x, ast.Name):
                    out[x.id].append(n.context_expr)
        elif isinstance(n, ast.NamedExpr):
            out[n.target.id].append(n.value)
    return out


def mentioned(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def sources(e, defs, depth=3):
    """Names an expression is computed from, through local assignments."""
    out = set(mentioned(e))
    for _ in range(depth):
        new = set()
        for v in out:
            for d in defs.get(v, ()):
                new |= mentioned(d)
        if new <= out:
            break
        out |= new
    return out


def run(ctx):
    prog = ctx.prog
    ctx.rule("reviewed", "each function hands the options it takes to the same calls, under the same conditions, as its reviewed definition")
    ctx.rule("dead", "every parameter influences the result, an effect or an error of its function")
    ctx.rule("dropped", "a callee that declares an option under the same name is given it")
    ctx.rule("overridden", "a callee that declares an option under the same name is not given a fixed value instead")
    ctx.rule("exchanged", "an option is not passed as another option the caller also has")
    ctx.rule("overruled", "a mapping supplied by the caller is merged over the library's defaults, not under them")
    ctx.rule("redirect", "the attribute resolve_attr reads is the one its hook pre_resolve_attr chose from the options")
    ctx.rule("truncated", "a point in time handed in keeps its time of day")
    ctx.rule("late", "a function made in a loop and kept uses the values of the iteration that made it")
    ctx.rule("falsy", "a falsy value of an option is not replaced by the default")
    n_fn = 0
    callers = collections.defaultdict(set)
    found = []
    for fn in prog.all_functions(nested=True):
        if fn.module.name.startswith("vsa_spec"):
            continue
        n_fn += 1
        check_dead(ctx, prog, fn)
        check_calls(ctx, prog, fn, callers, found)
        check_merge(ctx, prog, fn)
    known_fns = {k[0] for k in ACCEPTED}
    for fn, call, g, q, what, key in found:
        if key in ACCEPTED or inherited(fn, g, q, callers, known_fns):
            ctx.ok("dropped" if what is None else "overridden")
            continue
        if what is None:
            ctx.violate("dropped", f"{key[0]}->{key[1]}:{q}", fn.loc(call), f"{fn.short} has option {q!r} but calls {g.short} without it, so its default applies")
        else:
            ctx.violate("overridden", f"{key[0]}->{key[1]}:{q}", fn.loc(call), f"{fn.short} has option {q!r} but passes {what} for it to {g.short}")
    ctx.unit(*{fn.module.name for fn in prog.all_functions()})
    ctx.at_least("functions", n_fn, 900)
    ctx.at_least("forwarded options", ctx.obligations["dropped"], 700)
    check_redirect(ctx, prog)
    truncated(ctx, "truncated")
    late_binding(ctx, "late", lambda m: True)
    python(ctx, "reviewed", everywhere("*"), 1000, aspect=options)
    kernels(ctx, "reviewed", lambda n, g, f: True, 180, aspect=calls)


def subterms(t, seen):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.uid in seen:
                continue
            seen.add(x.uid)
            yield x
            stack.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


def leaves(t):
    if t.kind == "ite":
        yield from leaves(t.args[1])
        yield from leaves(t.args[2])
    else:
        yield t


def check_redirect(ctx, prog):
    """`pre_resolve_attr` turns e.g. `trades` into `positions` according to the option `trades_type`; an attribute read
    under a name that does not derive from its answer ignores that option."""
    fn = pyref.find(prog, "vectorbt.utils.attr_", "AttrResolver.resolve_attr")
    if fn is None:
        ctx.unknown("utils.attr_.AttrResolver.resolve_attr", "not found")
        return
    try:
        k = pyref.PKernel(prog, fn)
    except Exception as e:
        ctx.unknown(fn.short, f"not evaluated: {e}")
        return
    seen, bad, n = set(), None, 0
    for root in [k.ret, *k.heap.values()]:
        for t in subterms(root, seen):
            if t.kind != "f" or len(t.args[1]) != 2 or not is_getattr(t.args[0]):
                continue
            for leaf in leaves(t.args[1][1]):
                n += 1
                if not any(x.kind == "a" and x.args[1] == "pre_resolve_attr" for x in subterms(leaf, set())):
                    bad = leaf
    if not n:
        ctx.unknown(fn.short, "no attribute read by a computed name")
    elif bad is not None:
        ctx.violate("redirect", fn.short, fn.loc(), f"{fn.short} may read the attribute named {show(bad)}, whatever pre_resolve_attr chose from the options")
    else:
        ctx.ok("redirect")


def is_getattr(t):
    if t.kind == "g":
        return getattr(t.args[0], "name", str(t.args[0])).split(".")[-1] == "getattr"
    return t.kind == "a" and t.args[1] == "getattr"


def inherited(fn, g, q, callers, known, depth=0):
    """A helper split off a function with an accepted non-forwarding."""
    if depth > 3 or outer_most(fn).short in known and depth == 0:
        return False
    for c in callers.get(fn, ()):
        if (c.short, g.short, q) in ACCEPTED or inherited(c, g, q, callers, set(), depth + 1):
            return True
    return False


def is_stub(fn):
    body = [s for s in fn.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if not body:
        return True
    return len(body) == 1 and isinstance(body[0], (ast.Pass, ast.Raise)) or \
        len(body) == 1 and isinstance(body[0], ast.Return) and (body[0].value is None or isinstance(body[0].value, ast.Constant))


def none_test(n, name):
    return isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.left, ast.Name) and n.left.id == name and \
        isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None


def live_names(fn):
    """Names something observable depends on."""
    edges = collections.defaultdict(set)        # target -> names
    roots = set()
    # control: a test governing only assignments to v is a dependency of v
    def visit(stmts, ctl):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                inner = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                edges[s.name] |= inner | ctl
                # decorators and defaults act at definition
                for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k]:
                    roots.update(mentioned(d))
            elif isinstance(s, ast.ClassDef):
                roots.update(mentioned(s))
            elif isinstance(s, ast.Assign):
                handle(s.targets, s.value, ctl)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    handle([s.target], s.value, ctl)
            elif isinstance(s, ast.AugAssign):
                handle([s.target], s.value, ctl)
            elif isinstance(s, ast.If):
                t = test_names(s.test, s)
                effects(s.test, ctl)
                visit(s.body, ctl | t)
                visit(s.orelse, ctl | t)
                if leaves(s.body) or leaves(s.orelse):
                    roots.update(t | ctl)
            elif isinstance(s, ast.While):
                t = mentioned(s.test)
                roots.update(t)
                visit(s.body, ctl | t)
                visit(s.orelse, ctl | t)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                handle([s.target], s.iter, ctl)
                t = mentioned(s.iter)
                visit(s.body, ctl | t)
                visit(s.orelse, ctl | t)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    roots.update(mentioned(i.context_expr))
                    if i.optional_vars is not None:
                        handle([i.optional_vars], i.context_expr, ctl)
                visit(s.body, ctl)
            elif isinstance(s, ast.Try):
                if s.handlers:
                    for b in s.body:        # whether it raises is what the handler observes
                        roots.update(mentioned(b))
                visit(s.body, ctl)
                for h in s.handlers:
                    visit(h.body, ctl)
                visit(s.orelse, ctl)
                visit(s.finalbody, ctl)
            elif isinstance(s, (ast.Return, ast.Expr, ast.Raise, ast.Assert, ast.Delete)):
                roots.update(mentioned(s) | ctl)
            elif isinstance(s, (ast.Break, ast.Continue)):
                roots.update(ctl)

    def handle(targets, value, ctl):
        effects(value, ctl)
        m = mentioned(value)
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    edges[x.id] |= m | ctl
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                base = t
                while isinstance(base, (ast.Attribute, ast.Subscript)):
                    base = base.value
                roots.update(m | ctl | mentioned(t))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    if isinstance(x, (ast.Attribute, ast.Subscript)):
                        roots.update(m | ctl | mentioned(x))

    def effects(e, ctl):
        """Method calls on local objects may act on them."""
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                roots.update(mentioned(e) | ctl)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "update", "append", "extend", "setdefault", "add_trace", "update_layout", "remove", "insert", "add", "write"):
                roots.update(mentioned(n) | ctl)
            if isinstance(n, ast.NamedExpr):
                edges[n.target.id] |= mentioned(n.value) | ctl

    def test_names(t, s):
        return mentioned(t)

    def leaves(body):
        return any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for s in body for x in ast.walk(s))
    node = fn.node
    if isinstance(node, ast.Lambda):
        return mentioned(node.body)
    visit(node.body, set())
    live = set()
    todo = list(roots)
    while todo:
        v = todo.pop()
        if v in live:
            continue
        live.add(v)
        todo.extend(edges.get(v, ()))
    return live


def check_dead(ctx, prog, fn):
    if fn.name == "<lambda>" or is_stub(fn) or any(d in ("abstractmethod", "abc.abstractmethod", "tp.overload", "overload") for d in (dotted(d if not isinstance(d, ast.Call) else d.func) or "" for d in fn.node.decorator_list)):
        return
    if any((dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] in ("overload",) for d in fn.node.decorator_list):
        return
    if fn.outer is not None:
        return      # inner functions follow a protocol of the function they are handed to
    if fn.name.startswith("__") and fn.name.endswith("__") and fn.name not in ("__init__", "__call__", "__new__"):
        return
    live = live_names(fn)
    body_names = {x.id for x in ast.walk(fn.node) if isinstance(x, ast.Name)}
    if "locals" in body_names:
        return
    for p in own_params(fn):
        if p.name.startswith("_") or p.name == "engine":
            continue
        key = (fn.short, p.name)
        if p.name in live:
            ctx.ok("dead")
        elif key in DEAD_OK or any(fn.short.endswith(k[0][1:]) and k[1] == p.name for k in DEAD_OK if k[0].startswith("*")):
            ctx.ok("dead")
        else:
            ctx.violate("dead", f"{fn.short}:{p.name}", fn.loc(), f"{fn.short} accepts {p.name!r} but nothing it returns, changes or raises depends on it")


def check_calls(ctx, prog, fn, callers, found):
    opts = set()
    o = fn
    while o is not None:
        opts |= {p.name for p in o.params if p.kind in ("pos", "kwonly")}
        o = o.outer
    opts -= SKIP
    defs = None
    for n in walk_scope(fn.node):
        if not isinstance(n, ast.Call):
            continue
        if defs is None:
            defs = reassigned(fn)
        check_dict(ctx, fn, n, opts, defs)
        g, skip = resolve_callee(prog, n, fn)
        if g is None:
            continue
        callers[g].add(fn)
        b = bind_call(n, g, skip_self=bool(skip))
        names = {p.name for p in g.params}
        for q in g.params:
            if q.kind not in ("pos", "kwonly") or q.name in SKIP:
                continue
            a = b.args.get(q.name)
            if q.name in opts:
                if a is None:
                    if q.default is not None and not b.dstar and not b.star:
                        found.append((fn, n, g, q.name, None, (fn.short, g.short, q.name)))
                    elif b.dstar or b.star:
                        pass
                elif isinstance(a, ast.Constant) or isinstance(a, ast.UnaryOp) and isinstance(a.operand, ast.Constant):
                    found.append((fn, n, g, q.name, src(a), (fn.short, g.short, q.name)))
                else:
                    ctx.ok("dropped")
            if a is not None and isinstance(a, ast.Name) and a.id in opts and a.id != q.name:
                # passed under the name of another option the caller has as well
                if q.name in opts and a.id in names:
                    key = (fn.short, g.short, q.name)
                    if key in SWAP_OK:
                        ctx.ok("exchanged")
                    else:
                        ctx.violate("exchanged", f"{fn.short}->{g.short}:{q.name}", fn.loc(a), f"{fn.short} passes option {a.id!r} as {q.name!r} of {g.short}, which also declares {a.id!r}")
            elif a is not None and isinstance(a, ast.Name) and a.id == q.name and a.id in opts:
                ctx.ok("exchanged")


def check_dict(ctx, fn, call, opts, defs):
    """dict(a=b): an option stored under the name of another."""
    if not (isinstance(call.func, ast.Name) and call.func.id == "dict"):
        return
    keys = {k.arg for k in call.keywords if k.arg}
    for k in call.keywords:
        if k.arg and k.arg in opts and isinstance(k.value, ast.Name):
            if k.value.id == k.arg:
                ctx.ok("exchanged")
            elif k.value.id in opts and k.value.id in keys and (fn.short, "dict", k.arg) not in SWAP_OK:
                ctx.violate("exchanged", f"{fn.short}:dict:{k.arg}", fn.loc(k.value), f"{fn.short} stores option {k.value.id!r} under the name {k.arg!r}")


def check_merge(ctx, prog, fn):
    params = {p.name for p in fn.params if p.kind in ("pos", "kwonly", "kw")}
    for n in walk_scope(fn.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "merge_dicts" and len(n.args) > 1:
            at = [(i, a.id) for i, a in enumerate(n.args) if isinstance(a, ast.Name) and a.id in params and (a.id.endswith("kwargs") or a.id in ("kwargs", "settings", "config"))]
            lit = [i for i, a in enumerate(n.args) if isinstance(a, ast.Dict) and a.keys or isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "dict" and a.keywords]
            for i, name in at:
                later = [j for j in lit if j > i]
                if later and (fn.short, name) not in OVERRULED_OK:
                    ctx.violate("overruled", f"{fn.short}:{name}", fn.loc(n), f"{fn.short} merges the caller's {name!r} under its own defaults {src(n.args[later[0]], 60)}")
                else:
                    ctx.ok("overruled")
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in params:
            v = n.value
            p = n.targets[0].id
            if isinstance(v, ast.BoolOp) and isinstance(v.op, ast.Or) and isinstance(v.values[0], ast.Name) and v.values[0].id == p and not empty(v.values[-1]):
                if (fn.short, p) in FALSY_OK:
                    ctx.ok("falsy")
                else:
                    ctx.violate("falsy", f"{fn.short}:{p}", fn.loc(n), f"{fn.short} replaces every falsy value of {p!r} (0, False, '') by {src(v.values[-1], 50)}")
        if isinstance(n, ast.If) and isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) and isinstance(n.test.operand, ast.Name) and n.test.operand.id in params:
            p = n.test.operand.id
            for s in n.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in s.targets) and not empty(s.value):
                    if (fn.short, p) not in FALSY_OK:
                        ctx.violate("falsy", f"{fn.short}:{p}", fn.loc(s), f"{fn.short} replaces every falsy value of {p!r} (0, False, '') by {src(s.value, 50)}")


def empty(e):
    return isinstance(e, ast.Dict) and not e.keys or isinstance(e, (ast.List, ast.Tuple)) and not e.elts or isinstance(e, ast.Call) and not e.args and not e.keywords and dotted(e.func) in ("dict", "list", "tuple", "set")
