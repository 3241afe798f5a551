"""Which functions a property is decided over, and comparing them with their reviewed references.

`python` selects Python-level functions (references in vsa/ref), `kernels` compiled kernels (references in vsa/spec).
With an aspect, a departure from the reference counts only when the code and the reference also differ in that aspect
(which cells are read, what is written, ...), so that a check reports what its own property is about.
"""
import ast
import itertools
import os

from .. import pyref
from ..gated import C, P, T, show, subterms
from ..kernel import check_spec, heads
from ..pool import run_jobs
from ..program import FunctionInfo, src
from . import simulators
from .common import NB, load_spec, prog_enum

GROUPS = ["generic", "indicators", "returns", "signals", "labels", "records", "base"]


def refs(prog, module):
    cache = prog.__dict__.setdefault("_pyrefs", {})
    if module not in cache:
        cache[module] = pyref.load_ref(prog, module)
    return cache[module]


def matches(name, pats):
    for p in pats:
        if p == "*" or p == name or p.endswith("*") and name.startswith(p[:-1]) or p.startswith("*") and name.endswith(p[1:]):
            return True
    return False


def python(ctx, rule, scopes, minimum, aspect=None, exclude=()):
    """scopes: {module: patterns | predicate(name, code)}."""
    prog = ctx.prog
    jobs = []
    for module, pats in scopes.items():
        module = "vectorbt." + module
        for name, sf in refs(prog, module).items():
            if matches(name, exclude):
                continue
            fi = pyref.find(prog, module, name)
            if callable(pats):
                if not (pats(name, sf) or fi is not None and pats(name, fi)):
                    continue
            elif not matches(name, [pats] if isinstance(pats, str) else pats):
                continue
            if fi is None:
                ctx.unknown(f"{module}.{name}", "not found")
                continue
            jobs.append(lambda c, fi=fi, sf=sf: pyref.check_ref(c, rule, prog, fi, sf, aspect=aspect))
    ctx.at_least("functions and declarations compared", len(jobs), minimum)
    run_jobs(ctx, jobs)


def mentions(*words):
    """The function uses one of these names (variable, attribute, keyword or string)."""
    def pred(name, fi):
        have = fi.__dict__.setdefault("_words", None)
        if have is None:
            have = {name.split(".")[-1]}
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Name):
                    have.add(x.id)
                elif isinstance(x, ast.Attribute):
                    have.add(x.attr)
                elif isinstance(x, ast.keyword) and x.arg:
                    have.add(x.arg)
                elif isinstance(x, ast.arg):
                    have.add(x.arg)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) < 60:
                    have.add(x.value)
            fi._words = have
        return any(w in have for w in words)
    return pred


def either(*preds):
    return lambda name, fi: any(p(name, fi) if callable(p) else matches(name, [p] if isinstance(p, str) else p) for p in preds)


def is_template(prog, fi):
    """The function calls, under its underscored name, a function registered as a Numba overload of itself."""
    for n in fi.module.tree.body:
        v = getattr(n, "value", None)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Call) and src(v.func.func).split(".")[-1] == "overload" and v.args and src(v.args[0]) == "_" + fi.name:
            return True
    return False


def find_kernel(prog, name):
    for m in ("generic.nb", "indicators.nb", "returns.nb", "signals.nb", "labels.nb", "records.nb", "base.combine_fns", "base.column_grouper", "base.index_fns",
              "base.reshape_fns", "utils.array_", "utils.math_", "utils.random_", "portfolio.nb", "returns.metrics"):
        mod = prog.modules.get("vectorbt." + m)
        if mod is not None and name in mod.functions:
            return mod.functions[name]
    return None


def kernel_specs(prog):
    out = {}
    for g in GROUPS:
        for name, sf in load_spec(prog, "c27_" + g).functions.items():
            out[name] = (g, sf)
    return out


def kernels(ctx, rule, select, minimum, aspect=None, typing=False):
    """select(name, group, code) -> bool."""
    prog = ctx.prog
    jobs = []
    n = 0
    for name, (g, sf) in kernel_specs(prog).items():
        if name.startswith("_") and find_kernel(prog, name) is None:
            continue
        fi = find_kernel(prog, name)
        if fi is None:
            if select(name, g, sf):
                ctx.unknown(name, "kernel not found")
            continue
        if not select(name, g, fi):
            continue
        n += 1
        jobs.append(lambda c, fi=fi, sf=sf: check_spec(c, rule, prog, fi, sf, aspect=aspect))
        if typing and not name.startswith("_") and g != "labels" and is_template(prog, fi):
            jobs.append(lambda c, fi=fi, sf=sf: check_spec(c, rule, prog, fi, sf, typing_mode=True, aspect=aspect))
    ctx.at_least("kernels compared", n, minimum)
    run_jobs(ctx, jobs)


def portfolio_jobs(prog, rule, aspect=None):
    """The simulators and every portfolio and record kernel that has a reference, one job per case."""
    from . import c07, c08, c09, c15, c20
    sims = simulators.load(prog)
    for name in simulators.NAMES:
        for case in simulators.cases(prog, name):
            yield lambda c, name=name, case=case: simulators.check_simulator(c, rule, prog, sims, name, aspect, [case])

    def spec_job(fi, sf, **kw):
        return lambda c: check_spec(c, rule, prog, fi, sf, aspect=aspect, **kw)
    c09s = load_spec(prog, "c09").functions
    ex = prog.require(NB + "execute_order_nb")
    for sz in prog_enum(prog, "SizeType").values():
        for d in prog_enum(prog, "Direction").values():
            o = c09.order_with(prog, size_type=C(sz), direction=C(d))
            yield spec_job(ex, c09s["execute_order_nb"], opaque=("buy_nb", "sell_nb"), limit=8000, args={p: o if p == "order" else P(p) for p in ex.param_names})
    done = set()

    def fresh(fi):
        return isinstance(fi, FunctionInfo) and fi.qualname not in done and not done.add(fi.qualname)
    for spec, find, opaque, names in (
            ("c07", lambda n: prog.get(NB + n) or prog.get(c07.GNB + n), c07.OPAQUE, lambda s: [n for n in s if n not in c07.HELPERS]),
            ("c08", lambda n: prog.get(NB + n), (), lambda s: c08.KERNELS),
            ("c09", lambda n: prog.get(NB + n), ("buy_nb", "sell_nb", "execute_order_nb", "raise_rejected_order_nb"), lambda s: ["process_order_nb", "order_nb", "close_position_nb", "replace_inf_price_nb", "try_order_nb"]),
            ("c15", lambda n: prog.get(NB + n), ("flex_select_auto_nb",), lambda s: c15.UNITS),
            ("c20", lambda n: c20.find(prog, n), c20.OPAQUE, lambda s: [n for n in s if n not in c20.HELPERS])):
        sp = load_spec(prog, spec).functions
        for n in names(sp):
            fi = find(n)
            fi = prog.deref(fi) if fi is not None else None
            if fresh(fi):
                modes = [(p, e) for p, e in (("size_type", "SizeType"), ("call_seq_type", "CallSeqType"), ("direction", "Direction")) if p in fi.param_names and n in ("approx_order_value_nb", "build_call_seq_nb", "build_call_seq")]
                cases = [{}]
                for p, e in modes:
                    cases = [{**c, p: C(v)} for c in cases for v in prog_enum(prog, e).values()]
                for c in cases:
                    yield spec_job(fi, sp[n], opaque=opaque, limit=8000, **({"args": {p: c.get(p, P(p)) for p in fi.param_names}} if c else {}))


def portfolio_kernels(ctx, rule, minimum=40, aspect=None):
    jobs = list(portfolio_jobs(ctx.prog, rule, aspect))
    ctx.at_least("portfolio kernels compared", len(jobs), minimum)
    run_jobs(ctx, jobs)


# ---- aspects -------------------------------------------------------------------------------------------------

def text(t):
    return show(t, -4)


def all_terms(k):
    yield k.ret
    for x in (k.heap,):
        for l, v in x.items():
            yield l
            yield v
    yield from k.raises
    for lp in k.loops:
        yield from lp.iter
        yield lp.entry
        for l, v in itertools.chain(lp.heap.items(), getattr(lp, "pre", {}).items()):
            yield l
            yield v
        for i, u in lp.carried.values():
            if isinstance(i, T):
                yield i
            if isinstance(u, T):
                yield u
        yield from lp.raises + lp.breaks + lp.returns


def everything(k):
    seen = set()
    for t in all_terms(k):
        if isinstance(t, T):
            yield from subterms(t, seen)


def reads(k):
    """Which cells are read and over which ranges, and what is called on them."""
    out = set()
    for lp in k.loops:
        out.add(f"loop {lp.kind} over {[text(x) for x in lp.iter]} in {lp.parent.id if lp.parent else None}")
    for t in everything(k):
        if t.kind == "i":
            out.add("cell " + text(t))
        elif t.kind in ("sl", "range"):
            out.add("range " + text(t))
        elif t.kind == "f":
            out.add("call " + text(t.args[0]))
        elif t.kind in ("after", "lastit", "loopexit"):
            out.add("state " + text(t))
    return out


def states(k):
    """Cells read plus where running state starts and at which loop level it is kept."""
    out = reads(k)
    for lp in k.loops:
        for n, (i, u) in lp.carried.items():
            out.add(f"state {n} of loop {lp.id} from {text(i) if isinstance(i, T) else i}")
    for t in everything(k):
        if t.kind == "new":
            out.add("buffer " + text(t))
    return out


def calls(k):
    """Which functions are called with which arguments, and which parameters and settings the results depend on."""
    out = set()
    for t in everything(k):
        if t.kind == "f":
            out.add("call " + text(t))
        elif t.kind == "p":
            out.add("uses " + text(t))
        elif t.kind == "i" and t.args[1].kind == "c":
            out.add("item " + text(t))
    return out


def options(k):
    """Calls, and whatever an argument of the function decides."""
    out = calls(k) | {"if " + text(t.args[0]) for t in everything(k) if t.kind == "ite" and takes_option(t.args[0])}
    return out | {"loop if " + text(lp.entry) for lp in k.loops if takes_option(lp.entry)}


def takes_option(cond):
    return any(x.kind == "p" and x.args[0] not in ("self", "cls") for x in subterms(cond, set()))


def engines(k):
    """Calls, and whatever the engine decides."""
    return calls(k) | {"if " + text(t.args[0]) for t in everything(k) if t.kind == "ite" and any(x.kind == "p" and x.args[0] == "engine" or x.kind == "a" and x.args[1] == "engine" for x in subterms(t.args[0]))}


def dispatchers():
    return {m: "*" for m in ALL if m.endswith(".dispatch")}


LOOKUPS = ("flex_select_auto_nb", "flex_select_nb", "flex_choose_i_and_col_nb")


def flex(k):
    """Which elements of broadcastable arguments are looked up, at which row and column."""
    out = set()
    for t in everything(k):
        if t.kind == "f" and any(x in text(t.args[0]) for x in LOOKUPS):
            out.add(text(t))
        elif t.kind == "i" and ".ndim" in text(t.args[1]):
            out.add(text(t))        # a look-up spelled out: which position depends on the number of dimensions
    return out


def writes(k):
    """What is stored to, and which buffers and copies are made."""
    out = set()
    for h in [k.heap] + [lp.heap for lp in k.loops]:
        for l in h:
            out.add("store " + text(l))
    for t in everything(k):
        if t.kind == "new":
            out.add("buffer " + text(t))
        elif t.kind == "f":
            out.add("call " + text(t.args[0]))
            for n, v in t.args[2]:
                if n in ("copy", "inplace", "deep", "copy_mode", "writeable", "out", "make_copy"):
                    out.add(f"option {n}={text(v)}")
        elif t.kind == "eff":
            out.add("store " + text(t.args[0]))
        elif t.kind == "ite":
            n = [len(copies_in(u)) for u in t.args[1:]]
            if n[0] != n[1]:
                out.add("copied if " + text(t.args[0]))
    return out


def copies_in(t):
    return {h for h in heads(t) if h.lstrip(".") in ("copy", "deepcopy", "copy_dict", "convert_to_dict", "array")}


ALL = sorted(f[:-3] for f in os.listdir(pyref.DIR) if f.endswith(".py"))


def everywhere(pats, without=()):
    return {m: pats for m in ALL if m not in without}
