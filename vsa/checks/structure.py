"""Rules decided from declarations and the structure of functions, without a reference (used by several checks)."""
import ast
import keyword
import os
import re

from ..consteval import ConstEval, Dct, Opaque
from ..gated import C, P
from ..kernel import check_spec
from ..pool import run_jobs
from ..program import Assign, ClassInfo, Ext, FunctionInfo, bind_call, const, dotted, src, walk_scope
from .common import NB, load_spec, prog_enum


def parents(root):
    out = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def above(node, par):
    while node in par:
        node = par[node]
        yield node


# ---- locked publication (C25) --------------------------------------------------------------------------------

def is_lock(e):
    d = dotted(e) or ""
    return d.split(".")[-1].lower().endswith("lock")


def locked_publication(ctx, rule):
    prog = ctx.prog
    regions = 0
    for fn in prog.all_functions(nested=True):
        for w in walk_scope(fn.node):
            if not isinstance(w, ast.With):
                continue
            lock = [i.context_expr for i in w.items if is_lock(i.context_expr)]
            fresh = [i.context_expr for i in w.items if isinstance(i.context_expr, ast.Call) and (dotted(i.context_expr.func) or "").split(".")[-1] in ("RLock", "Lock")]
            made = {t.id for s in walk_scope(fn.node) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and
                    (dotted(s.value.func) or "").split(".")[-1] in ("RLock", "Lock") for t in s.targets if isinstance(t, ast.Name)}
            fresh += [i.context_expr for i in w.items if isinstance(i.context_expr, ast.Name) and i.context_expr.id in made]
            if fresh:
                ctx.violate(rule, f"{fn.qualname}:newlock", fn.loc(w), f"{fn.name} creates the lock in the call that acquires it, so it excludes nobody")
                continue
            if not lock:
                continue
            regions += 1
            ctx.unit(fn.qualname)
            par = parents(fn.node)
            stores = [s for s in walk_scope(fn.node) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Subscript) for t in s.targets)
                      or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (dotted(s.value.func) or "") in ("setattr", "object.__setattr__")]
            inside = [s for s in stores if any(a is w for a in above(s, par))]
            for s in stores:
                where = fn.loc(s)
                t = next((ast.unparse(t) for t in getattr(s, "targets", []) if isinstance(t, ast.Subscript)), None)
                if s not in inside:
                    same = [i for i in inside if t is not None and t in [ast.unparse(x) for x in getattr(i, "targets", [])]]
                    if same or not inside:
                        ctx.violate(rule, f"{fn.qualname}:unlocked", where, f"{fn.name} publishes a cached value without holding {src(lock[0])}")
                    continue
                # inside the lock: some condition evaluated inside the lock must guard the store
                guards = []
                for a in above(s, par):
                    if a is w:
                        break
                    if isinstance(a, (ast.If, ast.Try)):
                        guards.append(a)
                early = [x for x in ast.walk(w) if isinstance(x, ast.If) and any(isinstance(y, (ast.Return, ast.Raise, ast.Continue, ast.Break)) for y in x.body) and x.lineno < s.lineno]
                if not guards and not early:
                    ctx.violate(rule, f"{fn.qualname}:retest", where, f"{fn.name} computes and publishes the value inside {src(lock[0])} without testing again whether another thread has done so")
                    continue
                # the tested name is read again inside the lock
                tests = [g.test for g in guards if isinstance(g, ast.If)] + [x.test for x in early]
                names = {x.id for t2 in tests for x in ast.walk(t2) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                local = set(fn.local_names) - set(fn.param_names) if not callable(fn.local_names) else set()
                direct = any(isinstance(x, (ast.Call, ast.Subscript, ast.Attribute)) or isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops) for t2 in tests for x in ast.walk(t2))
                reread = any(isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in names for y in x.targets) and x.lineno <= s.lineno and not isinstance(x.value, ast.Constant)
                             and not any(a in guards for a in above(x, par)) for x in ast.walk(w))
                if reread or direct:
                    ctx.ok(rule)
                else:
                    ctx.violate(rule, f"{fn.qualname}:reread", where, f"{fn.name} tests a value read before {src(lock[0])} was acquired, so a value published meanwhile is computed again")
                pub = s.value if isinstance(s, ast.Assign) else s.value.args[-1]
                later = [x for x in inside if x is not s and x.lineno > s.lineno and t is not None and t in [ast.unparse(y) for y in getattr(x, "targets", [])] and
                         not any(isinstance(g, ast.If) and (s in ast.walk(g)) and x in [z for b in g.orelse for z in ast.walk(b)] for g in ast.walk(w))]
                if later:
                    ctx.violate(rule, f"{fn.qualname}:early", where, f"{fn.name} publishes {ast.unparse(pub)[:40]} before the value is finished (stored again at line {later[0].lineno}), and readers do not take the lock")
                if isinstance(pub, ast.Name):
                    ctx_after = [x for x in ast.walk(w) if getattr(x, "lineno", 0) > s.lineno and (
                        isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == pub.id or
                        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == pub.id and
                        x.func.attr in ("append", "extend", "update", "insert", "add", "setdefault", "sort", "fill"))]
                    if ctx_after:
                        ctx.violate(rule, f"{fn.qualname}:unfinished", fn.loc(ctx_after[0]), f"{fn.name} goes on filling {pub.id} after it has been published")
                if isinstance(pub, (ast.Dict, ast.List)) and not (getattr(pub, "keys", None) or getattr(pub, "elts", None)):
                    ctx.violate(rule, f"{fn.qualname}:partial", where, f"{fn.name} publishes an empty container before filling it")
            if any(isinstance(x, ast.Call) for x in lock):
                ctx.violate(rule, f"{fn.qualname}:newlock", fn.loc(w), "the lock is created where it is acquired, so it excludes nobody")
    # locks are reentrant and created once
    n = 0
    for m in prog.modules.values():
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and is_lock(s.targets[0]) and isinstance(s.value, ast.Call):
                d = dotted(s.value.func) or ""
                n += 1
                ent = m.bindings().get(d) if callable(m.bindings) else None
                if d.split(".")[-1] == "Lock":
                    ctx.violate(rule, f"{m.name}:{ast.unparse(s.targets[0])}", f"{m.relpath}:{s.lineno}", "a cached value that reads another cached value of the same class would block forever: the lock is not reentrant")
                elif d.split(".")[-1] == "RLock":
                    ctx.ok(rule)
                else:
                    ctx.unknown(f"{m.relpath}:{s.lineno}", f"lock of unknown kind {d}")
    ctx.at_least("locked regions", regions, 1)


# ---- option lists (C21) --------------------------------------------------------------------------------------

def literal(v):
    try:
        return ast.literal_eval(v)
    except Exception:
        return None


def positional(args):
    """Codes passed by position, `*range(n)` included; None if not constant."""
    out = []
    for a in args:
        if isinstance(a, ast.Starred):
            r = a.value
            if isinstance(r, ast.Call) and dotted(r.func) == "range" and all(isinstance(const(x), int) for x in r.args):
                out += list(range(*[const(x) for x in r.args]))
            elif isinstance(literal(r), (list, tuple)):
                out += list(literal(r))
            else:
                return None
        else:
            out.append(literal(a))
    return out if all(isinstance(x, int) for x in out) else None


def enum_lists(ctx, rule):
    prog = ctx.prog
    n = 0
    for m in prog.modules.values():
        if not m.name.endswith(".enums"):
            continue
        m.bindings()
        for s in m.tree.body:
            v = getattr(s, "value", None)
            if not (isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name)):
                continue
            c = m.classes.get(v.func.id)
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target
            if c is None or not c.is_namedtuple or not isinstance(t, ast.Name):
                continue
            where = f"{m.relpath}:{s.lineno}"
            if any(isinstance(x, ast.AnnAssign) and src(x.annotation) != "int" for x in c.node.body):
                continue
            fields = [(x.target.id, x.value) for x in c.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
            given = positional(v.args)
            named = {k.arg: literal(k.value) for k in v.keywords}
            if given is None or None in named:
                ctx.unknown(where, f"codes of {t.id} are not constant")
                continue
            ctx.unit(f"{m.name}.{t.id}")
            if len(given) > len(fields) or any(k not in dict(fields) for k in named):
                ctx.violate(rule, f"{t.id}:count", where, f"{t.id} is given {len(given) + len(named)} codes for {len(fields)} members")
                continue
            codes = {}
            for i, (f, d) in enumerate(fields):
                codes[f] = given[i] if i < len(given) else named[f] if f in named else literal(d) if d is not None else None
            if any(isinstance(k, (float, str)) for k in codes.values()):
                continue
            n += 1
            missing = [f for f, k in codes.items() if k is None]
            if missing:
                ctx.violate(rule, f"{t.id}:missing", where, f"member {missing[0]!r} of {t.id} has no code")
                continue
            by = {}
            for f, k in codes.items():
                if k in by:
                    ctx.violate(rule, f"{t.id}:{f}", where, f"members {by[k]!r} and {f!r} of {t.id} share the code {k}")
                else:
                    by[k] = f
                    ctx.ok(rule)
            low = {}
            for f in codes:
                g = f.lower()
                if g in low:
                    ctx.violate(rule, f"{t.id}:{f}:case", where, f"names {low[g]!r} and {f!r} of {t.id} differ only in case")
                low[g] = f
            if c.name.endswith("T") and t.id in {k[:-1] for k in m.classes if k.endswith("T")} and t.id != c.name[:-1]:
                ctx.violate(rule, f"{t.id}:name", where, f"option list {t.id} is an instance of {c.name}")
    e = prog.modules.get("vectorbt.portfolio.enums")
    if e is not None:
        desc = next((s.value for s in e.tree.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "status_info_desc" for t in s.targets)), None)
        codes = prog_enum(prog, "OrderStatusInfo")
        if isinstance(desc, (ast.List, ast.Tuple)):
            real = {k: v for k, v in codes.items() if v >= 0}
            if any(isinstance(x, ast.Starred) for x in desc.elts):
                ctx.unknown(f"{e.relpath}:{desc.lineno}", "status texts are not listed one by one")
            elif len(desc.elts) != len(real):
                ctx.violate(rule, "status_info_desc", f"{e.relpath}:{desc.lineno}", f"{len(desc.elts)} status texts for {len(real)} status codes")
            else:
                ctx.ok(rule)
        else:
            ctx.unknown(e.relpath, "status texts are not a list")
    ctx.at_least("option lists", n, 15)


def mode_kernels(ctx, rule):
    """Kernels that branch on an option, for every member and for a code on each side of the list."""
    from .c15 import UNITS
    prog = ctx.prog
    jobs = []
    spec = load_spec(prog, "c15")
    for name, modes in UNITS.items():
        fi = prog.get(NB + name)
        if fi is None or not modes:
            continue
        cases = [{}]
        for par, en in modes:
            vals = list(prog_enum(prog, en).values())
            cases = [{**c, par: v} for c in cases for v in vals]
        for c in cases:
            if all(p in fi.param_names for p in c):
                args = {p: (C(c[p]) if p in c else P(p)) for p in fi.param_names}
                jobs.append(lambda k, fi=fi, name=name, args=args: check_spec(k, rule, prog, fi, spec.functions[name], opaque=("flex_select_auto_nb",), limit=6000, args=args))
    c09 = load_spec(prog, "c09")
    from .c09 import order_with
    sizes, dirs = prog_enum(prog, "SizeType"), prog_enum(prog, "Direction")
    around = lambda e: list(e.values()) + [min(e.values()) - 1, max(e.values()) + 1]
    fi = prog.require(NB + "execute_order_nb")
    for s in around(sizes):
        for d in around(dirs):
            if s in sizes.values() or d in dirs.values():
                o = order_with(prog, size_type=C(s), direction=C(d))
                args = {p: o if p == "order" else P(p) for p in fi.param_names}
                jobs.append(lambda k, args=args: check_spec(k, rule, prog, fi, c09.functions["execute_order_nb"], opaque=("buy_nb", "sell_nb"), limit=8000, args=args))
    c20 = load_spec(prog, "c20")
    from . import c20 as m20
    for name, par, en in (("approx_order_value_nb", "size_type", "SizeType"), ("build_call_seq_nb", "call_seq_type", "CallSeqType"), ("build_call_seq", "call_seq_type", "CallSeqType")):
        f2 = m20.find(prog, name)
        for v in prog_enum(prog, en).values():
            if par in f2.param_names:
                args = {p: C(v) if p == par else P(p) for p in f2.param_names}
                jobs.append(lambda k, f2=f2, name=name, args=args: check_spec(k, rule, prog, f2, c20.functions[name], opaque=m20.OPAQUE, limit=6000, args=args))
    ctx.at_least("option cases", len(jobs), 60)
    run_jobs(ctx, jobs)


# ---- seeding (C04) -------------------------------------------------------------------------------------------

SEEDERS = ("set_seed", "set_seed_nb")


def is_seed_call(c):
    d = dotted(c.func) or ""
    return d.split(".")[-1] in SEEDERS or d.endswith("random.seed")


def draws(c):
    """A call that draws from the global random state directly."""
    d = dotted(c.func) or ""
    return re.match(r"^(np\.random|numpy\.random|random)\.\w+$", d) is not None and not d.endswith((".seed", ".default_rng", ".RandomState", ".Generator"))


def seeding(ctx, rule):
    prog = ctx.prog
    n = 0
    for fn in prog.all_functions(nested=True):
        takes = "seed" in fn.param_names
        outer_seed = False
        f = fn.outer if hasattr(fn, "outer") else None
        while isinstance(f, FunctionInfo):
            outer_seed = outer_seed or "seed" in f.param_names
            f = f.outer
        par = None
        calls = [c for c in walk_scope(fn.node) if isinstance(c, ast.Call)]
        for c in calls:
            if not is_seed_call(c):
                continue
            n += 1
            ctx.unit(fn.qualname)
            par = par or parents(fn.node)
            names = {x.id for a in c.args + [k.value for k in c.keywords] for x in ast.walk(a) if isinstance(x, ast.Name)}
            if fn.name in SEEDERS:
                ctx.ok(rule)
                continue
            if not names:
                ctx.violate(rule, f"{fn.qualname}:constant", fn.loc(c), f"{fn.name} resets the random state to a value the caller did not choose")
                continue
            guard = [a.test for a in above(c, par) if isinstance(a, (ast.If, ast.IfExp))]
            early = [s.test for s in walk_scope(fn.node) if isinstance(s, ast.If) and s.lineno < c.lineno and any(isinstance(y, (ast.Return, ast.Raise)) for y in s.body)]
            assigned = any(isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in s.targets) for s in walk_scope(fn.node))
            refused = [s for s in refused_seeds(c, par, names) if s is not None] if takes and default_none(fn, "seed") else []
            if refused:
                ctx.violate(rule, f"{fn.qualname}:refused", fn.loc(c), f"{fn.name} does not apply the seed {refused[0]} when it is given")
            elif any(x in names for t in guard + early for x in {y.id for y in ast.walk(t) if isinstance(y, ast.Name)}):
                ctx.ok(rule)
            elif takes and "seed" in names and not assigned and default_none(fn, "seed"):
                ctx.violate(rule, f"{fn.qualname}:unguarded", fn.loc(c), f"{fn.name} resets the random state even when no seed is given")
            else:
                ctx.unknown(fn.loc(c), "the condition under which the seed is applied is not recognised")
        if takes:
            n += 1
            ctx.unit(fn.qualname)
            used = [c for c in calls if any(isinstance(x, ast.Name) and x.id == "seed" for a in c.args + [k.value for k in c.keywords] for x in ast.walk(a))]
            other = any(isinstance(x, ast.Name) and x.id == "seed" and isinstance(x.ctx, ast.Load) for x in ast.walk(fn.node))
            stub = all(isinstance(s, (ast.Pass, ast.Expr)) for s in fn.node.body)
            if used:
                ctx.ok(rule)
            elif other or stub:
                ctx.ok(rule)
            else:
                ctx.violate(rule, f"{fn.qualname}:ignored", fn.loc(), f"{fn.name} takes a seed and neither applies nor forwards it")
            first = min([c.lineno for c in calls if is_seed_call(c)] or [10 ** 9])
            for c in calls:
                if draws(c) and c.lineno < first < 10 ** 9:
                    ctx.violate(rule, f"{fn.qualname}:late", fn.loc(c), f"{fn.name} draws before applying the seed")
    ctx.at_least("seed uses", n, 25)


def refused_seeds(call, par, names):
    """Seeds for which the branches around a call that applies the seed keep it from happening."""
    out = []
    node = call
    while node in par:
        up = par[node]
        if isinstance(up, (ast.If, ast.IfExp)):
            body = up.body if isinstance(up.body, list) else [up.body]
            orelse = up.orelse if isinstance(up.orelse, list) else [up.orelse]
            want = True if node in body else False if node in orelse else None
            if want is not None and {y.id for y in ast.walk(up.test) if isinstance(y, ast.Name)} == {"seed"} and "seed" in names:
                for v in (0, 1, 42):
                    t = seed_test(up.test, v)
                    if t is not None and bool(t) != want:
                        out.append(v)
        node = up
    return out


def seed_test(t, seed):
    """The value of a test about the seed alone; None when it cannot be told."""
    if isinstance(t, ast.Name):
        return bool(seed)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = seed_test(t.operand, seed)
        return None if v is None else not v
    if isinstance(t, ast.BoolOp):
        vs = [seed_test(x, seed) for x in t.values]
        return None if None in vs else (all(vs) if isinstance(t.op, ast.And) else any(vs))
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant):
        k, op = t.comparators[0].value, type(t.ops[0]).__name__
        if op in ("Is", "IsNot"):
            return (seed is k) == (op == "Is") if k is None else None
        if type(k) is int and seed is not None:
            return {"Eq": seed == k, "NotEq": seed != k, "Lt": seed < k, "LtE": seed <= k, "Gt": seed > k, "GtE": seed >= k}.get(op)
    return None


def default_none(fn, p):
    d = fn.param(p).default if fn.param(p) is not None else None
    return isinstance(d, ast.Constant) and d.value is None


# ---- declarations (C17) --------------------------------------------------------------------------------------

def declarations(ctx, rule):
    prog = ctx.prog
    ce = ConstEval(prog)
    n = 0
    for modname in ("indicators.basic", "labels.generators", "signals.generators"):
        m = prog.modules.get("vectorbt." + modname)
        if m is None:
            ctx.unknown("vectorbt." + modname, "module not found")
            continue
        for s in m.tree.body:
            v = getattr(s, "value", None)
            if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("from_apply_func", "from_custom_func", "from_choice_func") and isinstance(v.func.value, ast.Call)):
                continue
            name = ast.unparse(s.targets[0]) if isinstance(s, ast.Assign) else "?"
            where = f"{m.relpath}:{s.lineno}"
            fac = kwargs_of(ce, v.func.value, m)
            app = kwargs_of(ce, v, m)
            if fac is None or app is None:
                ctx.unknown(where, f"declaration of {name} is not declarative")
                continue
            lists = {k: fac.get(k) or [] for k in ("input_names", "in_output_names", "param_names", "output_names")}
            if not all(isinstance(x, (list, tuple)) and all(isinstance(y, str) for y in x) for x in lists.values()):
                ctx.unknown(where, f"names declared by {name} are not constant")
                continue
            n += 1
            ctx.unit(f"{m.name}.{name}")
            allnames = [y for x in lists.values() for y in x]
            if len(set(allnames)) < len(allnames):
                ctx.violate(rule, f"{name}:duplicate", where, f"{name} declares a name twice")
            for role in ("apply", "cache"):
                node = v.args[0] if role == "apply" and v.args else app["nodes"].get("cache_func" if role == "cache" else "apply_func")
                if node is None:
                    continue
                fn = prog.deref(prog.resolve(node, m)) if prog.resolve(node, m) is not None else None
                if not isinstance(fn, FunctionInfo):
                    ctx.unknown(where, f"{role} function of {name} not found")
                    continue
                bind(ctx, rule, name, role, where, lists, app, fn)
    ctx.at_least("declarations", n, 15)


def kwargs_of(ce, call, m):
    out = dict(nodes={})
    for k in call.keywords:
        if k.arg is None:
            d = ce.ev(k.value, m)
            if not isinstance(d, Dct) or d.open:
                return None
            for kk, vv in d.items():
                out[kk] = vv
                out["nodes"][kk] = d.nodes.get(kk, (k.value, m))[0]
        else:
            out[k.arg] = ce.ev(k.value, m)
            out["nodes"][k.arg] = k.value
    return out


OPTIONS = {"cache_func", "apply_func", "kwargs_to_args", "pass_seed", "pass_flex_2d", "require_input_shape", "param_settings", "in_output_settings", "keep_pd", "to_2d", "pass_packed", "pass_input_shape",
           "pass_col", "num_ret_outputs", "var_args", "numba_loop", "as_lists", "return_raw", "use_raw", "input_index", "input_columns", "seed", "prepend_name", "per_column", "param_product",
           "speedup", "keep_flex", "engine", "cache_pass_packed", "cache_pass_per_column", "nodes", "silence_warnings", "use_ray", "ray_kwargs", "broadcast_kwargs", "mapper"}


def plain(x):
    return x[:-4] if x.endswith("_out") else x


def plural(x, d):
    return x == d or x == d + "s" or x in (d + "es",)


def bind(ctx, rule, name, role, where, lists, app, fn):
    pos = [p for p in fn.param_names]
    declared = list(lists["input_names"]) + list(lists["in_output_names"]) + list(lists["param_names"])
    extra = app.get("kwargs_to_args") or []
    if not isinstance(extra, (list, tuple)):
        ctx.unknown(where, f"{name}: keyword arguments to pass by position are not constant")
        return
    head = [p for p in pos if p not in ("input_shape", "entries", "new_entries", "from_i", "to_i", "col")]
    if role == "cache":
        declared = list(lists["input_names"]) + list(lists["param_names"])
        if lists["in_output_names"]:
            return
    order = declared + list(extra) if role == "apply" else declared + list(extra)
    at = {}
    for i, d in enumerate(order):
        hit = [j for j, p in enumerate(head) if plain(p) == d or plural(p, d)]
        if len(hit) == 1:
            at[d] = (i, hit[0])
    for d, (i, j) in at.items():
        shift = 1 if d in extra and "flex_2d" in head[:j] and "flex_2d" not in order else 0
        if i + shift != j and i < len(head):
            ctx.violate(rule, f"{name}:{role}:{d}", where, f"{name} passes {d!r} as argument {i + 1} of {fn.name}, which takes it as argument {j + 1} (argument {i + 1} is {head[i]!r})")
        else:
            ctx.ok(rule)
    if role != "apply":
        return
    accept = set(pos) | set(declared)
    star = any(p.kind == "kwargs" or str(p.kind).endswith("VAR_KEYWORD") for p in fn.params)
    for k in app:
        if k in OPTIONS or k in accept or star:
            ctx.ok(rule)
        else:
            close = [p for p in pos if p.startswith(k[:4])]
            ctx.violate(rule, f"{name}:option:{k}", where, f"{name} declares the option {k!r}, which {fn.name} does not take" + (f" (it takes {close})" if close else ""))


# ---- tables (C18) --------------------------------------------------------------------------------------------

def prepared(name):
    name = name.replace("NaN", "Nan")
    u = name.startswith("_")
    name = re.sub(r"([A-Z])", r"_\1", name)
    if not u and name.startswith("_"):
        name = name[1:]
    name = name.lower()
    return name + "_" if keyword.iskeyword(name) else name


class Members:
    """Names that exist on a class, its bases and through attaching decorators."""

    def __init__(self, prog):
        self.prog, self.ce, self.memo = prog, ConstEval(prog), {}

    def of(self, cls):
        if cls.qualname in self.memo:
            return self.memo[cls.qualname]
        names, is_open = set(), cls.name.endswith("Mixin")     # a mixin is used through the classes that inherit it
        self.memo[cls.qualname] = (names, True)
        for c in cls.mro():
            if not isinstance(c, ClassInfo):
                if isinstance(c, Ext) and str(getattr(c, "name", c)).split(".")[-1] not in ("object", "Protocol", "ABC", "Generic"):
                    is_open = True
                continue
            names |= set(c.methods) | set(c.attrs)
            for mth in c.methods.values():
                for n in ast.walk(mth.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Store):
                        names.add(n.attr)
            for b in c.node.bases:
                ent = self.prog.resolve(b, c.module)
                ent = self.prog.deref(ent) if ent is not None else None
                if not isinstance(ent, ClassInfo) and (dotted(b) or "").split(".")[-1] not in ("object", "Protocol", "ABC", "NamedTuple"):
                    if not (dotted(b) or "").startswith("tp."):
                        is_open = True
            if "__getattr__" in c.methods or "__getattribute__" in c.methods:
                is_open = True
            for d in c.node.decorator_list:
                x, o = self.attached(c, d)
                names |= x
                is_open |= o
        self.memo[cls.qualname] = (names, is_open)
        return self.memo[cls.qualname]

    def attached(self, c, d):
        if not isinstance(d, ast.Call):
            return set(), False
        fname = (dotted(d.func) or "").split(".")[-1]
        if fname.startswith(("register_", "override_", "add_", "attach_unary", "attach_binary")) and fname not in ("attach_binary_magic_methods",):
            if fname.startswith("attach_unary"):
                return {"__neg__", "__pos__", "__abs__", "__invert__"}, False
            return set(), False
        out, is_open = set(), False
        for a in list(d.args) + [k.value for k in d.keywords]:
            v = self.ce.ev(a, c.module)
            if isinstance(v, Dct):
                out |= {prepared(k) for k in v if isinstance(k, str)} | {k for k in v if isinstance(k, str)}
                for k, s in v.items():
                    if isinstance(s, Dct) and isinstance(s.get("attach"), str):
                        out.add(prepared(s["attach"]))
                    if isinstance(s, Dct) and s.get("attach_filters"):
                        f = s["attach_filters"]
                        if isinstance(f, Dct):
                            out |= {prepared(x) for x in f.values() if isinstance(x, str)}
                        else:
                            is_open = is_open or not self.filters(c, k, out)
                is_open |= v.open
            elif isinstance(v, (str, bool, int)) or v is None:
                pass
            elif isinstance(v, FunctionInfo):
                pass
            elif fname.startswith("attach"):
                is_open = True
        if fname == "attach_fields":
            for f in self.dtype_fields(c) or ():
                out.add(prepared(f))
            if self.dtype_fields(c) is None:
                is_open = True
        return out, is_open

    def config(self, c):
        from .c07 import class_configs
        return [cfg for _, cfg in class_configs(self.ce, c) if isinstance(cfg, Dct)]

    def dtype_fields(self, c):
        from .c07 import dtype_fields
        for cfg in reversed(self.config(c)):
            dt = cfg.get("dtype")
            if isinstance(dt, Assign):
                f = dtype_fields(self.ce, dt)
                return [x for x, _ in f] if f else None
            if isinstance(dt, Opaque):
                ent = self.prog.resolve(dt.node, dt.module)
                ent = self.prog.deref(ent) if ent is not None else None
                f = dtype_fields(self.ce, ent) if isinstance(ent, Assign) else None
                if f is None and isinstance(dt.node, ast.Call):
                    f = dtype_fields(self.ce, type("A", (), dict(value=dt.node, module=dt.module))())
                return [x for x, _ in f] if f else None
        return None

    def filters(self, c, field, out):
        from .c07 import enum_name
        for cfg in reversed(self.config(c)):
            st = cfg.get("settings")
            mp = st.get(field, {}).get("mapping") if isinstance(st, Dct) and isinstance(st.get(field), Dct) else None
            if mp is None:
                continue
            en = enum_name(self.prog, mp)
            for mod in ("portfolio", "generic", "signals", "labels"):
                e = self.prog.get(f"vectorbt.{mod}.enums.{en}T") if en else None
                e = self.prog.deref(e) if e is not None else None
                if isinstance(e, ClassInfo):
                    for s in e.node.body:
                        if isinstance(s, ast.AnnAssign):
                            out.add(prepared(s.target.id))
                    return True
        return False


def has(names, a):
    return a in names or "get_" + a in names


def result_class(prog, cls, attr):
    """The class a method or property of cls returns, from its annotation."""
    for a in ("get_" + attr, attr):
        m = cls.lookup(a)
        if isinstance(m, FunctionInfo) and m.node.returns is not None:
            t = m.node.returns
            t = t.value if isinstance(t, ast.Constant) else t
            name = t if isinstance(t, str) else dotted(t)
            if not name:
                return None
            for cand in (name, name[:-1] if name.endswith("T") else name):
                try:
                    ent = prog.resolve(ast.parse(cand, mode="eval").body, m.module)
                except SyntaxError:
                    return None
                ent = prog.deref(ent) if ent is not None else None
                if isinstance(ent, ClassInfo):
                    return ent
            return None
    return None


ENTRY_ARGS = {"self", "settings", "column", "group_by", "metrics", "tags", "silence_warnings", "template_mapping", "filters", "global_settings", "metric_settings", "subplot_settings",
              "fig", "add_trace_kwargs", "xref", "yref", "xaxis", "yaxis", "x_domain", "y_domain", "row", "col", "trace_kwargs", "add_shape_kwargs", "resolve_self", "calc_func", "plot_func"}


def tables(ctx, rule):
    prog = ctx.prog
    mem = Members(prog)
    ce = mem.ce
    n = entries = 0
    everything = set()
    for c in prog.all_classes():
        everything |= mem.of(c)[0]
    for c in prog.all_classes():
        for s in c.node.body:
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AnnAssign) else None
            if not (isinstance(t, ast.Name) and t.id in ("_metrics", "_subplots") and s.value is not None):
                continue
            tab = ce.ev(s.value, c.module)
            if not isinstance(tab, Dct):
                ctx.unknown(c.loc(s), f"{t.id} of {c.name} is not declarative")
                continue
            n += 1
            ctx.unit(f"{c.qualname}.{t.id}")
            names, is_open = mem.of(c)
            for sub in prog.all_classes():
                if c in sub.mro() and sub is not c:
                    is_open = is_open or False
            titles = {}
            for key, e in tab.items():
                node = tab.nodes.get(key, (s.value, c.module))[0]
                where = c.loc(node)
                if not isinstance(e, Dct):
                    if isinstance(e, Opaque):
                        ctx.unknown(where, f"{t.id} entry {key!r} of {c.name} is not declarative")
                    else:
                        ctx.violate(rule, f"{c.qualname}.{t.id}:{key}:shape", where, f"entry {key!r} of {c.name}.{t.id} is not a table of settings")
                    continue
                entries += 1
                check_entry(ctx, rule, prog, mem, c, t.id, key, e, where, names, is_open, titles, everything)
    ctx.at_least("tables", n, 10)
    ctx.at_least("table entries", entries, 100)
    attached(ctx, rule, prog, mem)


def check_entry(ctx, rule, prog, mem, c, tab, key, e, where, names, is_open, titles, everything):
    bad = lambda k, msg: ctx.violate(rule, f"{c.qualname}.{tab}:{key}:{k}", where, f"entry {key!r} of {c.name}.{tab}: {msg}")
    ti = e.get("title")
    conds = tuple(sorted((k, repr(v)) for k, v in e.items() if isinstance(k, str) and k.startswith("check_")))
    if isinstance(ti, str) and tab == "_metrics":
        for other, oc in titles.get(ti, []):
            if oc == conds:
                bad("title", f"has the same title {ti!r} as {other!r}")
        titles.setdefault(ti, []).append((key, conds))
        ctx.ok(rule)
    tags = e.get("tags")
    if tags is not None and not isinstance(tags, Opaque):
        ts = [tags] if isinstance(tags, str) else tags
        if not isinstance(ts, (list, tuple)) or not all(isinstance(x, str) and x.isidentifier() for x in ts):
            bad("tags", f"tags {tags!r} cannot be filtered by")
        elif len(set(ts)) < len(ts):
            bad("tags", f"tags {tags!r} repeat")
        else:
            ctx.ok(rule)
    fk = "calc_func" if tab == "_metrics" else "plot_func"
    if fk not in e and not e.open:
        bad(fk, f"no {fk} is given")
    f = e.get(fk)
    node = e.nodes.get(fk, (None, None))[0]
    if isinstance(f, str):
        parts = f.split(".")
        cls = c
        for i, p in enumerate(parts):
            ns, op = mem.of(cls)
            if has(ns, p):
                ctx.ok(rule)
            elif not op:
                bad(f"{fk}:{p}", f"{f!r} names {p!r}, which {cls.name} does not have")
                break
            cls = result_class(prog, cls, p)
            if cls is None:     # an object of a type the annotations do not give (an array, a pandas object)
                break
    elif isinstance(node, ast.Lambda):
        args = [a.arg for a in node.args.args + node.args.kwonlyargs]
        own = {k for k in e if isinstance(k, str)}
        for a in args:
            if a in ENTRY_ARGS or a in own or has(names, a):
                ctx.ok(rule)
            elif is_open and (a in everything or "get_" + a in everything):
                ctx.ok(rule)
            else:
                dflt = defaults_of(prog, c)
                if a in dflt:
                    ctx.ok(rule)
                elif dflt is None or is_open:
                    ctx.unknown(where, f"argument {a!r} of {key!r}")
                else:
                    bad(f"arg:{a}", f"needs {a!r}, which neither {c.name} nor its settings provide")
        for x in ast.walk(node.body):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                if x.attr in names:
                    ctx.ok(rule)
                elif not is_open:
                    bad(f"self.{x.attr}", f"reads {x.attr!r}, which {c.name} does not have")


def defaults_of(prog, c):
    """Names given to every entry by the class's stats_defaults / plots_defaults and the settings they read."""
    out = set()
    for k in c.mro():
        if not isinstance(k, ClassInfo):
            continue
        for m in ("stats_defaults", "plots_defaults"):
            f = k.methods.get(m)
            if f is None:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.keyword) and n.arg:
                    out.add(n.arg)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    out.add(n.value)
    st = prog.modules.get("vectorbt._settings")
    if st is not None:
        for n in ast.walk(st.tree):
            if isinstance(n, ast.keyword) and n.arg:
                out.add(n.arg)
    return out


def attached(ctx, rule, prog, mem):
    """Methods attached from tables: portfolio return metrics exist on the returns accessor."""
    acc = prog.get("vectorbt.returns.accessors.ReturnsAccessor")
    acc = prog.deref(acc) if acc is not None else None
    n = 0
    for c in prog.all_classes():
        for d in c.node.decorator_list:
            if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] == "attach_returns_acc_methods" and d.args and isinstance(acc, ClassInfo):
                v = mem.ce.ev(d.args[0], c.module)
                if not isinstance(v, Dct):
                    ctx.unknown(c.loc(d), "table of attached methods is not declarative")
                    continue
                names, _ = mem.of(acc)
                for k, s in v.items():
                    t = s.get("source_name", k) if isinstance(s, Dct) else k
                    n += 1
                    if isinstance(t, str) and t not in names:
                        ctx.violate(rule, f"{c.qualname}:attached:{k}", c.loc(d), f"method {k!r} attached to {c.name} calls {t!r}, which {acc.name} does not have")
                    else:
                        ctx.ok(rule)
    ctx.at_least("attached return metrics", n, 20)


# ---- objects handed in by the caller (C03) ---------------------------------------------------------------------------

MUTATORS = {"append", "extend", "insert", "pop", "popitem", "update", "setdefault", "clear", "remove", "sort", "reverse", "add", "discard", "fill"}
READERS = {"get", "pop", "setdefault"}
# What these functions exist to do is to fill, or to take from, the object they are given.
HANDED_OUT = {"__pdoc__", "cond_kwargs", "passed_kwargs_out", "cache_dct", "cache", "out_dict", "_final_kwargs", "memo", "dct", "fig", "fig_kwargs_out", "self", "cls", "instance", "handler"}
OFFERS = {"make_copy", "inplace"}       # the caller decides whether a copy is made


class Aliases:
    """Which local names may still be the very object a parameter was given, following assignments in order."""

    def __init__(self, fn):
        self.fn = fn
        a = fn.node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.var = {x.arg for x in (a.vararg, a.kwarg) if x is not None}
        self.hits = []      # (node, text, parameter)

    def run(self):
        env = {p: frozenset([p]) for p in self.params}
        env.update({v: frozenset() for v in self.var})
        self.block(self.fn.node.body, env)
        return self.hits

    def value(self, e, env):
        if isinstance(e, ast.Name):
            return env.get(e.id, frozenset())
        if isinstance(e, ast.IfExp):
            return self.value(e.body, env) | self.value(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.value(v, env) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.value(e.value, env)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return frozenset()
            return self.part(e.value, env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in READERS:
            return self.part(e.func.value, env)
        return frozenset()

    def part(self, e, env):
        """An element of a container: of a parameter, or of the keyword arguments."""
        if isinstance(e, ast.Name) and e.id in self.var and e.id in env:
            return frozenset([e.id])
        return frozenset()

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: a.get(k, frozenset()) | b.get(k, frozenset()) for k in set(a) | set(b)}

    def narrow(self, test, env):
        """Names that are None, or another literal, in the branch where the test holds."""
        out = set()
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.Is) and isinstance(test.left, ast.Name) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            out.add(test.left.id)
        return {k: (frozenset() if k in out else v) for k, v in env.items()}

    def otherwise(self, test, env):
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.IsNot):
            t = ast.Compare(left=test.left, ops=[ast.Is()], comparators=test.comparators)
            return self.narrow(t, env)
        return env

    def block(self, stmts, env):
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            env = dict(env)
            env.pop(s.name, None)
            return env
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            self.exprs(s, env)
            return env if isinstance(s, (ast.Continue, ast.Break)) else None
        if isinstance(s, ast.If):
            self.exprs(s.test, env)
            return self.join(self.block(s.body, self.narrow(s.test, env)), self.block(s.orelse, self.otherwise(s.test, env)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.exprs(s.iter if hasattr(s, "iter") else s.test, env)
            env = dict(env)
            if hasattr(s, "target"):
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        env[n.id] = frozenset()
            once = self.join(env, self.block(s.body, env))
            env = self.join(once, self.block(s.body, once))
            return self.join(env, self.block(s.orelse, env)) if s.orelse else env
        if isinstance(s, ast.Try):
            body = self.block(s.body, env)
            seen = self.join(env, body)
            out = self.block(s.orelse, body) if s.orelse and body is not None else body
            for h in s.handlers:
                out = self.join(out, self.block(h.body, seen))
            if s.finalbody:
                fin = self.block(s.finalbody, self.join(out, seen))
                out = None if out is None else fin
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.exprs(i.context_expr, env)
            return self.block(s.body, env)
        if isinstance(s, ast.Match):
            self.exprs(s.subject, env)
            out = env
            for c in s.cases:
                out = self.join(out, self.block(c.body, env))
            return out
        self.exprs(s, env)
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            env = dict(env)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if isinstance(t, ast.Subscript):
                    self.hit(s, t.value, env)
                elif isinstance(t, ast.Name):
                    if s.value is not None:
                        env[t.id] = self.value(s.value, env)
                else:
                    pairs = zip(t.elts, s.value.elts) if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts) else None
                    if pairs is not None:
                        old = dict(env)
                        for x, v in pairs:
                            if isinstance(x, ast.Name):
                                env[x.id] = self.value(v, old)
                            elif isinstance(x, ast.Subscript):
                                self.hit(s, x.value, old)
                    else:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                env[n.id] = frozenset()
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Subscript):
                self.hit(s, s.target.value, env)
            elif isinstance(s.target, ast.Name) and isinstance(s.value, (ast.List, ast.ListComp)) and isinstance(s.op, ast.Add):
                self.hit(s, s.target, env)
            elif isinstance(s.target, ast.Name):
                env = {**env, s.target.id: frozenset()}
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.hit(s, t.value, env)
        return env

    def exprs(self, s, env):
        todo = [s]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                self.hit(n, n.func.value, env)
            todo.extend(ast.iter_child_nodes(n))

    def hit(self, node, obj, env):
        if isinstance(obj, ast.Name):
            for p in env.get(obj.id, ()):
                if obj.id not in HANDED_OUT and p not in HANDED_OUT:
                    self.hits.append((node, obj.id, p))


def handed_in(ctx, rule, least=700):
    """No function changes in place a container its caller passed: it works on a copy, or on one it built."""
    from ..pyref import DIR, SNAPSHOT
    nested = set(open(os.path.join(DIR, "_nested.txt")).read().split())     # a new helper may be handed what its caller made
    seen = 0
    for fn in ctx.prog.all_functions(nested=True):
        if isinstance(fn.node, ast.Lambda) or fn.qualname not in (SNAPSHOT if fn.outer is None else nested):
            continue
        if any(p in OFFERS for p in [a.arg for a in fn.node.args.args + fn.node.args.kwonlyargs]):
            continue
        if any("njit" in ast.unparse(d) or "register_jit" in ast.unparse(d) for d in fn.node.decorator_list):
            continue
        seen += 1
        ctx.ok(rule)
        done = set()
        for node, name, p in Aliases(fn).run():
            key = f"{fn.qualname}:{p}"
            if key in done:
                continue
            done.add(key)
            ctx.violate(rule, key, fn.loc(node), f"{fn.name} changes `{name}` in place with `{src(node)[:90]}`, and that may be the very object the caller passed as `{p}`")
        ctx.unit(fn.qualname)
    ctx.at_least("functions checked for changes to what they were handed", seen, least)


# ---- positions of a list that was replaced (C17) ---------------------------------------------------------------------

def stale_positions(ctx, rule):
    """Positions picked out of a list say nothing about another list later bound to the same name."""
    seen = 0
    for fn in ctx.prog.all_functions(nested=True):
        if isinstance(fn.node, ast.Lambda):
            continue
        stmts = [n for n in walk_scope(fn.node) if isinstance(n, (ast.Assign, ast.For))]
        picked = []         # (index list, list, line)
        for s in stmts:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                g = s.value.generators[0]
                if g.ifs and isinstance(g.iter, ast.Call) and dotted(g.iter.func) == "enumerate" and g.iter.args and isinstance(g.iter.args[0], ast.Name) \
                        and isinstance(g.target, ast.Tuple) and isinstance(g.target.elts[0], ast.Name) and isinstance(s.value.elt, ast.Name) and s.value.elt.id == g.target.elts[0].id:
                    picked.append((s.targets[0].id, g.iter.args[0].id, s.lineno))
        for idxs, name, line in picked:
            seen += 1
            ctx.ok(rule)
            ctx.unit(fn.qualname)
            again = max([s.lineno for s in stmts if isinstance(s, ast.Assign) and s.lineno > line and any(isinstance(t, ast.Name) and t.id == idxs for t in s.targets)], default=10 ** 9)
            for s in stmts:
                if not (isinstance(s, ast.Assign) and line < s.lineno < again and any(isinstance(t, ast.Name) and t.id == name for t in s.targets)):
                    continue
                cut = [n for n in ast.walk(s.value) if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice)]
                if not cut or not any(isinstance(n, ast.Name) and n.id == idxs for c in cut for n in ast.walk(c.slice)):
                    continue        # only a piece whose length is that of the index list is certainly not the full list
                for f in stmts:
                    if isinstance(f, ast.For) and s.lineno < f.lineno < again and isinstance(f.target, ast.Name) and isinstance(f.iter, ast.Call) and dotted(f.iter.func) == "range" \
                            and any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(f.iter)):
                        for t in ast.walk(f):
                            if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.In, ast.NotIn)) and isinstance(t.left, ast.Name) and t.left.id == f.target.id \
                                    and isinstance(t.comparators[0], ast.Name) and t.comparators[0].id == idxs:
                                ctx.violate(rule, f"{fn.qualname}:{idxs}", fn.loc(f), f"{fn.name} picked the positions `{idxs}` from `{name}`, replaced `{name}` with a piece of another list, "
                                            f"and then tests the positions of that piece against `{idxs}`: the elements left out are never reached")
    return seen


# ---- times of day cut off (C06) --------------------------------------------------------------------------------------

def truncated(ctx, rule):
    """A point in time handed in keeps its time of day: it is not combined with an empty time, nor reduced to its date."""
    seen = 0
    for fn in ctx.prog.all_functions():
        if isinstance(fn.node, ast.Lambda) or not re.search(r"datetime|data\.", fn.module.name):
            continue
        a = fn.node.args
        names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if re.search(r"dt|date|start|end|ts", x.arg)}
        if not names:
            continue
        seen += 1
        ctx.ok(rule)
        ctx.unit(fn.qualname)
        for n in walk_scope(fn.node):
            if not isinstance(n, ast.Call):
                continue
            of = lambda e: any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))
            d = dotted(n.func) or ""
            if d.endswith("datetime.combine") and len(n.args) == 2 and of(n.args[0]) and isinstance(n.args[1], ast.Call) and not n.args[1].args and not n.args[1].keywords \
                    and (dotted(n.args[1].func) or "").split(".")[-1] in ("time", "dt_time"):
                ctx.violate(rule, fn.qualname, fn.loc(n), f"{fn.name} combines `{src(n.args[0])}` with an empty time, which drops the time of day it was given")
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("date", "normalize") and not n.args and of(n.func.value):
                ctx.violate(rule, fn.qualname, fn.loc(n), f"{fn.name} reduces `{src(n.func.value)}` to its date, which drops the time of day it was given")
    return seen


# ---- functions made in a loop (C06, C07, C17) ------------------------------------------------------------------------

def free_reads(node):
    """Names a nested function or lambda reads from outside itself when it runs (its defaults are read when it is made)."""
    a = node.args
    own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]}
    body = node.body if isinstance(node.body, list) else [node.body]
    bound, out = set(own), set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                bound.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                bound.add(n.name)
            elif isinstance(n, ast.arg):
                bound.add(n.arg)
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in bound:
                out.add(n.id)
    return out


KEEPERS = {"append", "extend", "insert", "add", "setdefault", "update", "setattr", "property", "cached_property", "cached_method", "partial"}


def late_binding(ctx, rule, within):
    """A function made in a loop and kept beyond the iteration must not read the loop's variables when it is called."""
    seen = 0
    for fn in ctx.prog.all_functions(nested=True):
        if isinstance(fn.node, ast.Lambda) or not within(fn.module.name):
            continue
        par = None
        for loop in walk_scope(fn.node):
            if not isinstance(loop, (ast.For, ast.While)):
                continue
            changed = {n.id for s in ([loop.target] if isinstance(loop, ast.For) else []) + loop.body for n in own_nodes(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            made = [n for s in loop.body for n in own_nodes(s) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))]
            for m in made:
                seen += 1
                late = free_reads(m) & changed
                if not late:
                    ctx.ok(rule)
                    continue
                par = par or parents(fn.node)
                if isinstance(m, ast.Lambda):
                    kept = outlives(m, par)
                else:
                    uses = [n for s in loop.body for n in own_nodes(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id == m.name]
                    kept = any(outlives(u, par) for u in uses) or bool(m.decorator_list) and any(outlives(u, par) for u in uses)
                if kept:
                    name = getattr(m, "name", "lambda")
                    ctx.violate(rule, f"{fn.qualname}:{name}", fn.loc(m), f"{fn.name} keeps the function {name} it makes in a loop, which reads {', '.join(sorted(late))} when it is called: "
                                "every one of these functions then sees the value of the last iteration")
                else:
                    ctx.ok(rule)
            ctx.unit(fn.qualname)
    return seen


def own_nodes(s):
    """A statement and what it contains, nested functions themselves included but not entered."""
    todo = [s]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def outlives(n, par):
    """The function is stored somewhere that lives on after the iteration."""
    while n in par:
        p = par[n]
        if isinstance(p, ast.Call):
            name = (dotted(p.func) or getattr(p.func, "attr", "") or "").split(".")[-1]
            if n is p.func:
                return False        # called here
            if name in ("setattr", "append", "extend", "insert", "add", "setdefault", "update"):
                return True
            if name not in KEEPERS and not name.endswith("property"):
                return False        # handed to a call that may well run it at once
        elif isinstance(p, ast.Assign):
            return any(isinstance(t, (ast.Subscript, ast.Attribute)) and not (isinstance(t, ast.Attribute) and t.attr.startswith("__")) for t in p.targets) and p.value is n
        elif isinstance(p, (ast.Yield, ast.Return)):
            return isinstance(p, ast.Yield)
        elif isinstance(p, ast.stmt):
            return False
        elif isinstance(p, (ast.IfExp, ast.Dict, ast.List, ast.Tuple, ast.keyword, ast.Starred)):
            pass
        elif isinstance(p, ast.Attribute):
            return False
        n = p
    return False
