"""Every dispatcher is evaluated (value-flow terms, no execution) once per engine; the arguments that reach the
interpreted kernel and the compiled routine are bound to the parameters those routines declare and compared."""
import ast
import re

from ..program import AnalysisError, Assign, ClassInfo, Ext, FunctionInfo, Program, ModRef
from ..terms import C, NONE, P, T, TermFlow, alts, leaves, subterms, show, cval, UNK
from .. import rustsig
from .scope import dispatchers, engines, everywhere, mentions, python

TECHNIQUE = "value-flow analysis of dispatchers against declared signatures of both engines; conditional constant propagation for engine resolution"
LEVEL_NOTE = "Sound for the source-visible half of engine equivalence over all dispatchers: each argument of every engine call is traced to the dispatcher's parameter and matched by declared name/default. Trusts that pyo3 signatures are readable from the Rust source; numeric equality is C26."
EXPLANATION = ("Static: all functions of vectorbt/*/dispatch.py that resolve an engine are evaluated as value-flow terms under engine=numba "
               "and engine=rust; argument terms are bound to the parameters declared by the numba kernel (Python source) and by the compiled "
               "routine (pyo3 signatures in rust/src/*.rs) and compared name by name, default by default, dtype by dtype. resolve_engine and "
               "the support helpers are decided by constant propagation over all combinations of their finite inputs. Not covered: numeric "
               "equality of the two implementations (C26).")
ASSUMPTIONS = ["rust/src signatures are read lexically (attributes, fn headers and export macros)"]

# compiled routines whose interpreted counterpart is a generic kernel given this callback (confirmed by reading)
COMPOSITE = {"top_n_mapped_mask": "top_n_inout_map_nb", "bottom_n_mapped_mask": "bottom_n_inout_map_nb"}

PREP = {"prepare_array_for_rust", "prepare_flex_array_for_rust"}
STRIP_EXT = {"numpy.asarray", "numpy.ascontiguousarray", "numpy.array", "builtins.int", "builtins.float", "builtins.bool", "builtins.tuple",
             "numpy.asfortranarray", "numpy.require", "numpy.ascontiguousarray"}

# rust parameter spelled differently from the dispatcher's, confirmed by reading
ALIASES = {("nrows", "shape"), ("ncols", "shape"), ("nrows", "input_shape"), ("ncols", "input_shape"),
           ("rows", "shape"), ("cols", "shape"), ("rows", "target_shape"), ("cols", "target_shape"),
           ("height", "shape"), ("width", "shape")}


def fname(t):
    """Simple name of a call term's callee."""
    if t.kind != "f":
        return None
    f = t.args[0]
    if f.kind == "g":
        e = f.args[0]
        return getattr(e, "name", "").split(".")[-1]
    if f.kind == "a":
        return f.args[1]
    return None


def strip(t):
    """Remove value-preserving conversions."""
    while t.kind == "f":
        f = t.args[0]
        if f.kind == "g":
            e = f.args[0]
            if isinstance(e, FunctionInfo) and e.name in PREP and t.args[1]:
                t = t.args[1][0]
                continue
            if isinstance(e, Ext) and e.name in STRIP_EXT and t.args[1]:
                t = t.args[1][0]
                continue
        if f.kind == "a" and f.args[1] in ("astype", "copy") :
            t = f.args[0]
            continue
        break
    if t.kind == "phi":
        from ..terms import phi
        return phi([strip(x) for x in t.args[0]])
    return t


def engine_hook(mode):
    def hook(tf, rec, st, fr):
        c = rec.callee
        n = c.name if isinstance(c, FunctionInfo) else None
        if n in ("resolve_engine", "resolve_random_engine"):
            return C(mode)
        if n in PREP:
            return T("f", rec.func, tuple(rec.args), tuple(sorted(rec.kwargs.items())))
        return None
    return hook


def kernel_of(rec):
    """('nb', FunctionInfo) / ('rs', module, name) for a call record."""
    c = rec.callee
    if isinstance(c, FunctionInfo) and c.cls is None and c.module.name.endswith(".nb"):
        return ("nb", c)
    if isinstance(c, Ext) and c.name.startswith("vectorbt_rust."):
        p = c.name.split(".")
        if len(p) == 3:
            return ("rs", p[1], p[2])
    return None


def evaluate(prog, fi, mode):
    tf = TermFlow(prog, call_hook=engine_hook(mode),
                  inline=lambda callee, rec, d: callee.module is fi.module and callee.name.startswith("_") and d < 4)
    fr = tf.analyze(fi)
    return tf, fr


def rust_bind(rf, rec):
    b, errs = {}, []
    names = [p[0] for p in rf.params]
    for i, a in enumerate(rec.args):
        if a.kind == "star":
            return None, ["starred"]
        if i < len(names):
            b[names[i]] = a
        else:
            errs.append("too many positional arguments")
    for k, v in rec.kwargs.items():
        if k not in names:
            errs.append(f"unexpected keyword '{k}'")
        elif k in b:
            errs.append(f"multiple values for '{k}'")
        b[k] = v
    for n, d, t in rf.params:
        if n not in b and d is None and not rec.dstar:
            errs.append(f"missing argument '{n}'")
    return b, errs


def py_default(prog, p, fi):
    if p is None or p.default is None:
        return "required"
    tf = TermFlow(prog)
    t = tf.default_term(p, fi)
    d = norm_default(t)
    return d if d[0] != "t" else norm_default(strip(t))


def norm_default(t):
    if t.kind == "c":
        v = cval(t)
        if isinstance(v, bool):
            return ("b", v)
        if isinstance(v, (int, float)):
            return ("n", float(v))
        return ("o", repr(v))
    if t.kind == "f" and t.args[0].kind == "g" and getattr(t.args[0].args[0], "name", "") == "builtins.float" and t.args[1] and t.args[1][0].kind == "c":
        return ("n", str(cval(t.args[1][0])).lower())
    if t.kind == "op" and t.args[0] == "neg":
        d = norm_default(t.args[1])
        return ("n", -d[1]) if isinstance(d, tuple) and d[0] == "n" else ("t", show(t))
    if t.kind == "g" and isinstance(t.args[0], Ext):
        n = t.args[0].name
        if n in ("numpy.nan", "numpy.NaN"):
            return ("n", "nan")
        if n == "numpy.inf":
            return ("n", float("inf"))
    # Enum.Member
    if t.kind == "a" and t.args[0].kind == "g" and isinstance(t.args[0].args[0], Assign):
        v = enum_value(t.args[0].args[0], t.args[1])
        if v is not None:
            return ("n", float(v))
    return ("t", show(t))


def enum_value(assign, member):
    """X = XT() with class XT(NamedTuple): Member: int = k"""
    v = assign.value
    if isinstance(v, ast.Call):
        c = assign.module.program.resolve(v.func, assign.module)
        if isinstance(c, ClassInfo) and member in c.attrs:
            d = c.attrs[member]
            if isinstance(d, ast.Constant):
                return d.value
            if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
                return -d.operand.value
    return None


def rust_default(d, consts):
    if d is None:
        return "required"
    d = d.strip()
    if d == "None":
        return ("o", "None")
    if d in ("true", "false"):
        return ("b", d == "true")
    if d in consts:
        return rust_default(consts[d], consts)
    if d.endswith("::NAN"):
        return ("n", "nan")
    if d.endswith("::INFINITY"):
        return ("n", float("inf"))
    if d.endswith("::NEG_INFINITY"):
        return ("n", float("-inf"))
    try:
        return ("n", float(d.replace("_", "")))
    except ValueError:
        return ("t", d)


def elem_type(ty):
    m = re.search(r"Py(?:Readonly|Readwrite)Array\w*<[^,>]*,\s*(\w+)>", ty)
    return {"f64": "float64", "i64": "int64", "bool": "bool"}.get(m.group(1)) if m else None


def is_rw(ty):
    return "PyReadwriteArray" in ty


def prep_info(t):
    """(fn name, dtype name) of the outermost preparation of a term."""
    out = []
    for a in alts(t):
        n = fname(a)
        if n in PREP:
            kw = dict(a.args[2])
            pos = a.args[1]
            dt = kw.get("dtype")
            if dt is None:
                k = 1 if n == "prepare_array_for_rust" else 2
                dt = pos[k] if len(pos) > k else None
            out.append((n, dtype_name(dt), a))
        else:
            out.append((None, None, a))
    return out


def dtype_name(dt):
    if dt is None:
        return "float64"
    if dt.kind == "g" and isinstance(dt.args[0], Ext):
        return {"numpy.float64": "float64", "numpy.int64": "int64", "numpy.bool_": "bool", "builtins.float": "float64",
                "builtins.bool": "bool", "builtins.int": "int64"}.get(dt.args[0].name, dt.args[0].name)
    return show(dt)


def support_terms(tf):
    """supports_rust argument terms of resolve_engine calls."""
    out = []
    for r in tf.calls.values():
        if isinstance(r.callee, FunctionInfo) and r.callee.name == "resolve_engine":
            b = r.binding or {}
            out.append((r, b.get("supports_rust"), b.get("engine")))
    return out


def run(ctx):
    prog = ctx.prog
    ctx.rule("reviewed", "dispatchers and engine resolution hand over, convert and check what their reviewed definitions do; methods hand the chosen engine on")
    rust = rustsig.load(prog_root(prog))
    consts = rust_consts(prog_root(prog))
    ctx.rule("pair", "both engines' branches of a dispatcher call the kernel of the dispatcher's own name and pass each declared parameter the dispatcher argument of the same name")
    ctx.rule("args", "both branches hand over the same set of dispatcher arguments")
    ctx.rule("defaults", "dispatcher, interpreted kernel and compiled routine declare equal defaults")
    ctx.rule("dtype", "arrays handed to the compiled routine are converted to the element type it declares, and support was checked with that type")
    ctx.rule("support", "automatic selection checks support of every array handed to the compiled routine; callback dispatchers declare themselves unsupported")
    ctx.rule("resolve", "engine resolution: every name/availability/support combination gives the documented outcome")
    ctx.rule("forward", "a dispatcher that delegates hands its own engine argument on")
    n_disp = n_pair = n_cb = 0
    for m in prog.modules.values():
        if not m.name.endswith(".dispatch"):
            continue
        if m.name.split(".")[-2] not in rust:
            ctx.unknown(m.name, "no compiled counterpart module")
        for f in m.functions.values():
            if f.param("engine") is None:
                continue
            n_disp += 1
            ctx.unit(f.short)
            a, b = check_dispatcher(ctx, prog, f, rust, consts)
            n_pair += a
            n_cb += b
    ctx.at_least("dispatchers", n_disp, 200)
    ctx.at_least("dispatchers with both engines", n_pair, 170)
    ctx.at_least("callback dispatchers", n_cb, 15)
    ctx.notes["dispatchers"] = n_disp
    ctx.notes["two_engine_dispatchers"] = n_pair
    ctx.notes["callback_dispatchers"] = n_cb
    ctx.notes["compiled_routines"] = sum(len(x) for x in rust.values())
    check_resolution(ctx, prog)
    check_engine_forwarding(ctx, prog)
    scopes = dispatchers()
    scopes["_engine"] = "*"
    python(ctx, "reviewed", scopes, 200)
    python(ctx, "reviewed", everywhere(mentions("engine"), set(scopes)), 120, aspect=engines)


def prog_root(prog):
    from ..core import REPO
    return REPO


def rust_consts(root):
    import os
    out = {}
    base = os.path.join(root, "rust", "src")
    for f in os.listdir(base):
        if f.endswith(".rs"):
            s = rustsig.strip_comments(open(os.path.join(base, f), encoding="utf-8").read())
            for m in re.finditer(r"const\s+(\w+)\s*:\s*\w+\s*=\s*([^;]+);", s):
                out[m.group(1)] = m.group(2).strip()
    return out


def own_leaves(t, f):
    return {x for x in leaves(strip(t))} - {"engine"}


def check_dispatcher(ctx, prog, f, rust, consts):
    tn, fn_ = evaluate(prog, f, "numba")
    tr, fr_ = evaluate(prog, f, "rust")
    nb = [(r, kernel_of(r)) for r in tn.calls.values() if kernel_of(r) and r.result in ret_calls(fn_) or kernel_of(r) and kernel_of(r)[0] == "nb"]
    rs = [(r, kernel_of(r)) for r in tr.calls.values() if kernel_of(r) and kernel_of(r)[0] == "rs"]
    nb_in_rust = [(r, kernel_of(r)) for r in tr.calls.values() if kernel_of(r) and kernel_of(r)[0] == "nb"]
    nb = [(r, k) for r, k in nb if k[0] == "nb"]
    sups = support_terms(tr)
    random_only = any(isinstance(r.callee, FunctionInfo) and r.callee.name == "resolve_random_engine" for r in tn.calls.values())
    # engine argument is the function's own
    for r, s, e in sups:
        ok = e is not None and (e is P("engine") or leaves(e) <= {"engine"} and (leaves(e) or e.kind == "c"))
        if not ok:
            ctx.violate("resolve", f"{f.short}:engine-arg", r.loc(), f"{f.short}: resolve_engine is not given the caller's engine")
    if rs and not nb:
        ctx.violate("pair", f"{f.short}:no-nb", f.loc(), f"{f.short}: compiled branch without an interpreted one")
        return 0, 0
    if not rs:
        if not nb:
            # pure delegation (engine forwarded) is covered by `forward`
            return 0, 0
        # callback dispatchers
        if sups:
            bad = False
            for r, s, e in sups:
                if s is None or not any(fname(x) == "callback_unsupported_with_rust" or is_false_support(x) for x in subterms(s)):
                    bad = True
                    ctx.violate("support", f"{f.short}:callback", r.loc(), f"{f.short}: has no compiled branch but resolves the engine as supported, so an explicit compiled engine would be ignored")
            if not bad:
                ctx.ok("support")
        elif not any(isinstance(r.callee, FunctionInfo) and r.callee.param("engine") for r in tn.calls.values()):
            ctx.violate("resolve", f"{f.short}:unresolved", f.loc(), f"{f.short}: accepts an engine but never resolves it, so an invalid engine name is ignored")
        for r, k in nb:
            check_nb_binding(ctx, f, r, k[1])
        return 0, 1
    # the two engines
    for r, k in rs:
        if nb_in_rust and any(not same_base(k[2], x[1][1].name) and x[0].result in ret_calls(fr_) for x in nb_in_rust):
            pass
    used_nb, used_rs, live_nb = set(), set(), set()
    rs_bound = []
    for r, k in rs:
        rf = rust.get(k[1], {}).get(k[2])
        if rf is not None:
            rs_bound.append((r, rust_bind(rf, r)[0]))
    for r, k in nb:
        kf = k[1]
        check_nb_binding(ctx, f, r, kf, rs_bound)
        for t in all_args(r):
            used_nb |= own_leaves(t, f)
        for t in live_args(r, kf):
            live_nb |= own_leaves(t, f)
    for r in tn.calls.values():
        if isinstance(r.callee, FunctionInfo) and r.callee.name in ("set_seed", "set_seed_nb"):
            for t in all_args(r):
                used_nb |= own_leaves(t, f)
    nb_names = {k[1].name for r, k in nb}
    for r, k in rs:
        mod, name = k[1], k[2]
        rf = rust.get(mod, {}).get(name)
        if rf is None:
            if name.endswith("_rs"):
                ctx.violate("pair", f"{f.short}:{name}:missing", r.loc(), f"{f.short}: compiled routine {mod}.{name} is not exported by rust/src/{mod}.rs")
            continue
        if not rf.registered:
            ctx.violate("pair", f"{f.short}:{name}:unregistered", r.loc(), f"{f.short}: compiled routine {mod}.{name} is not registered in its module")
        base = name[:-3]
        exp = base_names(f.name)
        if base not in exp:
            ctx.violate("pair", f"{f.short}:rs-name", r.loc(), f"{f.short}: compiled branch calls {name}")
        elif not any(same_base(name, x) for x in nb_names):
            # composite kernels (rank_nb + sig_pos_rank_nb passed as callback)
            passed = {fname_of(t) for rr, kk in nb for t in all_args(rr) for t in subterms(t)}
            if (base + "_nb") not in passed and COMPOSITE.get(base) not in passed and not any(same_base(name, x) for x in passed if x):
                ctx.violate("pair", f"{f.short}:nb-name", r.loc(), f"{f.short}: compiled branch calls {name} but the interpreted branch calls {sorted(nb_names)}")
            else:
                ctx.ok("pair")
        else:
            ctx.ok("pair")
        b, errs = rust_bind(rf, r)
        if b is None:
            ctx.unknown(r.loc(), "starred call of compiled routine")
            continue
        for e in errs:
            ctx.violate("pair", f"{f.short}:{name}:{e}", r.loc(), f"{f.short}: call of {name}: {e} (declared {rf})")
        for q, dflt, ty in rf.params:
            if q not in b:
                # relying on the compiled default: must equal the interpreted one
                kf = next((kk[1] for rr, kk in nb if same_base(name, kk[1].name)), None)
                p = kf.param(q) if kf else None
                if f.param(q) is not None:
                    ctx.violate("args", f"{f.short}:{name}:{q}:dropped", r.loc(), f"{f.short}: argument '{q}' is not handed to {name}")
                elif p is not None and p.default is not None and rust_default(dflt, consts) != py_default(prog, p, kf):
                    ctx.violate("defaults", f"{f.short}:{name}:{q}", r.loc(), f"{f.short}: {name} default of '{q}' ({dflt}) differs from {kf.name}")
                continue
            t = b[q]
            lv = own_leaves(t, f)
            used_rs |= lv
            if f.param(q) is not None:
                if not own_arg(t, q, f, other_arg([(x, x.binding) for x, _ in nb], q)):
                    ctx.violate("pair", f"{f.short}:{name}:{q}", r.loc(), f"{f.short}: parameter '{q}' of {name} receives {show(strip(t))}")
                else:
                    ctx.ok("pair")
                # constant-transparent: value must be the parameter itself
                if lv == {q} and not value_preserving(t, q):
                    # the interpreted branch must apply the same transformation
                    if not same_in_nb(nb, q, t):
                        ctx.violate("pair", f"{f.short}:{name}:{q}:altered", r.loc(), f"{f.short}: parameter '{q}' of {name} receives the altered value {show(strip(t))}")
            else:
                wrong = [x for x in lv if (q, x) not in ALIASES and any(p[0] == x for p in rf.params)]
                if wrong:
                    ctx.violate("pair", f"{f.short}:{name}:{q}", r.loc(), f"{f.short}: parameter '{q}' of {name} receives {show(strip(t))}, which belongs to {wrong}")
                else:
                    ctx.ok("pair")
            check_dtype(ctx, f, r, name, q, ty, t, sups)
            check_unsigned(ctx, f, r, name, q, ty, t, sups)
    # same information
    d = (used_rs - used_nb) | (live_nb - used_rs)
    for x in sorted(d):
        side = "interpreted" if x in used_rs else "compiled"
        ctx.violate("args", f"{f.short}:{x}", f.loc(), f"{f.short}: argument '{x}' reaches only the other engine, not the {side} one")
    if not d:
        ctx.ok("args")
    # defaults
    for p in f.params:
        if p.name == "engine" or p.kind not in ("pos", "kwonly"):
            continue
        dd = py_default(prog, p, f)
        for r, k in nb:
            q = k[1].param(p.name)
            if q is not None and p.default is not None and q.default is not None:
                dn = py_default(prog, q, k[1])
                if dd != dn and not both_opaque(dd, dn):
                    ctx.violate("defaults", f"{f.short}:{p.name}:nb", f.loc(), f"{f.short}: default of '{p.name}' is {dd}, {k[1].name} declares {dn}")
                else:
                    ctx.ok("defaults")
        for r, k in rs:
            rf = rust.get(k[1], {}).get(k[2])
            q = next((x for x in (rf.params if rf else []) if x[0] == p.name), None)
            if q is not None and p.default is not None and q[1] is not None:
                dr = rust_default(q[1], consts)
                if dd != dr and not both_opaque(dd, dr) and not (dr == ("o", "None")):
                    ctx.violate("defaults", f"{f.short}:{p.name}:rs", f.loc(), f"{f.short}: default of '{p.name}' is {dd}, {k[2]} declares {dr}")
                else:
                    ctx.ok("defaults")
    if not sups:
        ctx.violate("resolve", f"{f.short}:unresolved", f.loc(), f"{f.short}: compiled branch taken without resolve_engine")
    # unsupported arrays: engine-specific return values must both be returned
    for fr, calls, label in ((fn_, nb, "numba"), (fr_, rs, "rust")):
        rets = set()
        for v, _, _ in fr.returns:
            rets |= set(subterms(v))
        for r, k in calls:
            if r.result not in rets and r.result.kind == "f":
                # helper calls (normalisation) are fine if some kernel result is returned
                if not any(x.result in rets for x, _ in calls):
                    ctx.violate("pair", f"{f.short}:{label}:not-returned", r.loc(), f"{f.short}: result of {label} kernel is not returned")
                break
    return 1, 0


def both_opaque(a, b):
    return isinstance(a, tuple) and isinstance(b, tuple) and (a[0] == "t" or b[0] == "t") and a != b and False


def ret_calls(fr):
    return {x for v, _, _ in fr.returns for x in subterms(v)}


def fname_of(t):
    if t.kind == "g" and isinstance(t.args[0], FunctionInfo):
        return t.args[0].name
    return None


def base_names(n):
    return {n, n + "_1d", n.lstrip("_")}


def same_base(rs, nb):
    return nb is not None and rs[:-3] == nb[:-3]


def all_args(r):
    return list(r.args) + list(r.kwargs.values()) + list(r.dstar)


def live_args(r, kf):
    """Arguments bound to parameters the kernel actually reads (interface slots such as `col` may be ignored)."""
    out = []
    for q, t in (r.binding or {}).items():
        if q.startswith("*") or is_read(kf, q):
            out.append(t)
    return out


def is_read(kf, q):
    return any(isinstance(n, ast.Name) and n.id == q and isinstance(n.ctx, ast.Load) for s in kf.node.body for n in ast.walk(s))


def is_false_support(t):
    return fname(t) == "RustSupport" and t.args[1] and t.args[1][0].kind == "c" and cval(t.args[1][0]) is False


def value_preserving(t, q):
    """No arithmetic and no foreign constant: conversions, repacking and item/field selection only."""
    s = strip(t)
    if s.kind == "phi":
        return all(value_preserving(x, q) for x in alts(s))
    if s is P(q):
        return True
    if s.kind == "i":
        return value_preserving(s.args[0], q)
    if s.kind == "a":
        return value_preserving(s.args[0], q)
    if s.kind in ("tup", "lst"):
        return all(value_preserving(x, q) for x in s.args)
    if s.kind == "f" and s.args[0].kind == "g" and not s.args[2]:
        # repacking into the compiled engine's own structure
        return isinstance(s.args[0].args[0], Ext) and s.args[0].args[0].name.startswith("vectorbt_rust.") and all(value_preserving(x, q) for x in s.args[1])
    return False


def own_arg(t, q, f, other):
    """Does argument term t carry dispatcher argument q (possibly defaulted the same way in the other branch)?"""
    s = strip(t)
    if own_leaves(t, f) == {q}:
        return True
    return s.kind == "phi" and P(q) in s.args[0] and other is not None and strip(other) is s


def other_arg(calls, q):
    for r, b in calls:
        x = (b or {}).get(q)
        if x is not None:
            return x
    return None


def same_in_nb(nb, q, t):
    for r, k in nb:
        x = (r.binding or {}).get(q)
        if x is not None and strip(x) is strip(t):
            return True
    return False


def check_nb_binding(ctx, f, r, kf, rs=()):
    for e in r.pyb or []:
        ctx.violate("pair", f"{f.short}:{kf.name}:{e}", r.loc(), f"{f.short}: call of {kf.name}: {e}")
    names = {p.name for p in kf.params}
    for q, t in (r.binding or {}).items():
        if q.startswith("*"):
            continue
        lv = own_leaves(t, f)
        if f.param(q) is not None and not (isinstance(kf.param(q), type(None))):
            if not own_arg(t, q, f, other_arg(rs, q)):
                ctx.violate("pair", f"{f.short}:{kf.name}:{q}", r.loc(), f"{f.short}: parameter '{q}' of {kf.name} receives {show(strip(t))}")
            elif lv == {q} and not value_preserving(t, q) and not any(strip(x) is strip(t) for x in [other_arg(rs, q)] if x is not None):
                ctx.violate("pair", f"{f.short}:{kf.name}:{q}:altered", r.loc(), f"{f.short}: parameter '{q}' of {kf.name} receives the altered value {show(strip(t))}")
            else:
                ctx.ok("pair")
        else:
            wrong = [x for x in lv if x in names]
            if wrong:
                ctx.violate("pair", f"{f.short}:{kf.name}:{q}", r.loc(), f"{f.short}: parameter '{q}' of {kf.name} receives {show(strip(t))}, which belongs to {wrong}")
    got = set(r.binding or {})
    if not any(a.kind == "star" for a in r.args) and not r.dstar:
        for p in kf.params:
            if p.kind in ("pos", "kwonly") and p.name not in got:
                if p.default is None:
                    ctx.violate("pair", f"{f.short}:{kf.name}:{p.name}:missing", r.loc(), f"{f.short}: call of {kf.name} misses '{p.name}'")
                elif f.param(p.name) is not None:
                    ctx.violate("args", f"{f.short}:{kf.name}:{p.name}:dropped", r.loc(), f"{f.short}: argument '{p.name}' is not handed to {kf.name}")


def check_dtype(ctx, f, r, name, q, ty, t, sups):
    et = elem_type(ty)
    if et is None:
        return
    for pn, dt, a in prep_info(t):
        if a is NONE or (a.kind == "p" and ty.startswith("Option<")):
            continue
        src_t = strip(a)
        if pn is None:
            if is_rw(ty):
                # in-place argument: exact dtype demanded
                if not supported(sups, src_t, et, {"exact_array_compatible_with_rust"}):
                    ctx.violate("support", f"{f.short}:{name}:{q}:exact", r.loc(), f"{f.short}: in-place argument '{q}' of {name} is not checked for the exact type {et}")
                else:
                    ctx.ok("support")
            else:
                if f.param(q) is not None and not supported(sups, src_t, et, None):
                    ctx.unknown(r.loc(), f"argument '{q}' of {name} is handed over without conversion")
            continue
        if is_rw(ty):
            ctx.violate("dtype", f"{f.short}:{name}:{q}:copy", r.loc(), f"{f.short}: in-place argument '{q}' of {name} may be replaced by a converted copy")
        if dt != et:
            ctx.violate("dtype", f"{f.short}:{name}:{q}", r.loc(), f"{f.short}: '{q}' is converted to {dt} but {name} declares {et}")
        else:
            ctx.ok("dtype")
        if not supported(sups, src_t, et, None):
            ctx.violate("support", f"{f.short}:{name}:{q}", r.loc(), f"{f.short}: automatic selection does not check that '{q}' is a {et} array acceptable to {name}")
        else:
            ctx.ok("support")


def check_unsigned(ctx, f, r, name, q, ty, t, sups):
    """A scalar the compiled routine declares unsigned must be part of the support decision."""
    if f.module.name.split(".")[-2] not in ("generic", "labels", "returns"):
        return      # elsewhere only non-negative values are meaningful, and the modules do not promise a fallback
    if not re.fullmatch(r"(Option<\s*)?(usize|u\d+)\s*>?", ty.strip()):
        return
    lv = leaves(strip(t)) & {p.name for p in f.params}
    if not sups or not lv:
        return
    for _, s, _ in sups:
        if s is None or not lv <= leaves(s):
            ctx.violate("support", f"{f.short}:{name}:{q}:unsigned", r.loc(), f"{f.short}: {name} declares '{q}' unsigned but automatic selection does not check {sorted(lv)}")
        else:
            ctx.ok("support")


ARR = {"array_compatible_with_rust": (0, 1, None), "exact_array_compatible_with_rust": (0, 1, None),
       "flex_array_compatible_with_rust": (1, 3, None), "array_and_non_neg_int_compatible_with_rust": (0, None, "float64"),
       "rolling_compatible_with_rust": (0, None, "float64"), "non_neg_array_compatible_with_rust": (1, None, "int64"),
       "col_range_compatible_with_rust": (0, None, "int64"), "col_map_compatible_with_rust": (0, None, "int64")}


def supported(sups, t, et, only):
    """Is there a support check on the source of t with element type et?"""
    for _, s, _ in sups:
        if s is None:
            continue
        for x in subterms(s):
            n = fname(x)
            if n is None:
                continue
            if only and n not in only:
                continue
            pos, kw = x.args[1], dict(x.args[2])
            if n in ("mask_and_array_compatible_with_rust", "mask_and_values_compatible_with_rust"):
                exp = {"mask_and_array_compatible_with_rust": ("float64", "bool"), "mask_and_values_compatible_with_rust": ("float64", "bool", "float64")}[n]
                for a, e in zip(pos, exp):
                    if same_src(a, t) and e == et:
                        return True
                continue
            if n in ARR:
                ai, di, fixed = ARR[n]
                if len(pos) <= ai:
                    continue
                a = pos[ai]
                if fixed:
                    d = fixed
                else:
                    dtt = kw.get("dtype") or (pos[di] if di is not None and len(pos) > di else None)
                    d = dtype_name(dtt)
                if same_src(a, t) and d == et:
                    return True
            elif n.endswith("_compatible_with_rust") and any(same_src(a, t) for a in pos):
                # module-local composite helper
                return True
    return False


def same_src(a, t):
    a, t = strip(a), strip(t)
    if a is t:
        return True
    if t.kind == "i" and strip(t.args[0]) is a:
        return True
    return a.kind == "i" and False or (leaves(a) == leaves(t) and len(leaves(a)) == 1 and a.kind != "c")


# -- engine resolution ----------------------------------------------------
def check_resolution(ctx, prog):
    fi = prog.require("vectorbt._engine.resolve_engine")
    RS = prog.require("vectorbt._engine.RustSupport")
    cases = 0
    for eng in (None, "numba", "rust", "auto", "bogus", "Rust", ""):
        for setting in ((None,) if eng is not None else ("numba", "rust", "auto", "bogus")):
            for avail in (True, False):
                for sup in (True, False):
                    eff = setting if eng is None else eng
                    out = resolve_case(prog, fi, eng, setting, avail, sup)
                    if eff == "numba":
                        exp = ("ret", "numba")
                    elif eff == "rust":
                        exp = ("ret", "rust") if avail and sup else ("raise",)
                    elif eff == "auto":
                        exp = ("ret", "rust" if avail and sup else "numba")
                    else:
                        exp = ("raise",)
                    cases += 1
                    if out == {exp}:
                        ctx.ok("resolve")
                    else:
                        ctx.violate("resolve", f"resolve_engine:{eng}:{setting}:{avail}:{sup}", fi.loc(),
                                    f"resolve_engine(engine={eng!r}, setting={setting!r}) with compiled engine {'' if avail else 'not '}available and call {'' if sup else 'not '}supported gives {sorted(map(str, out))}, expected {exp}")
    ctx.notes["resolution_cases"] = cases
    # random engine: None/auto -> numba, others unchanged
    fr = prog.require("vectorbt._engine.resolve_random_engine")
    for eng, exp in ((None, "numba"), ("auto", "numba"), ("rust", "rust"), ("numba", "numba"), ("bogus", "bogus")):
        tf = TermFlow(prog)
        r = tf.ret(tf.analyze(fr, {"engine": C(eng)}))
        if r is C(exp):
            ctx.ok("resolve")
        else:
            ctx.violate("resolve", f"resolve_random_engine:{eng}", fr.loc(), f"resolve_random_engine({eng!r}) gives {show(r)}, expected {exp!r}")
    # support helpers
    def rs(v):
        return T("f", T("g", RS), (C(v),), ())

    def sup_of(t):
        if t.kind == "f" and t.args[0].kind == "g" and t.args[0].args[0] is RS:
            kw = dict(t.args[2])
            s = kw.get("supported") or (t.args[1][0] if t.args[1] else None)
            if s is not None and s.kind == "c":
                return cval(s)
        return None

    def decide(fname_, args, exp, label):
        f = prog.get("vectorbt._engine." + fname_)
        if not isinstance(f, FunctionInfo):
            ctx.unknown("_engine.py", f"{fname_} not found")
            return
        tf = SupportFlow(prog, RS, inline=lambda c, rec, d: c.module.name == "vectorbt._engine" and d < 5)
        fr = tf.analyze(f, args)
        outs = {sup_of(x) for v, _, _ in fr.returns for x in alts(v)}
        if None in outs and len(outs) > 1 or outs == {None}:
            ctx.unknown(f.loc(), f"{fname_}({label}) not decided: {[show(v) for v, _, _ in fr.returns]}")
        elif outs == {exp}:
            ctx.ok("support")
        else:
            ctx.violate("support", f"{fname_}:{label}", f.loc(), f"{fname_}({label}) says supported={outs}, expected {exp}")

    decide("callback_unsupported_with_rust", {}, False, "")
    for v, exp in ((None, True), (-1, False), (0, True), (3, True)):
        decide("non_neg_int_compatible_with_rust", {"name": C("x"), "value": C(v)}, exp, f"value={v}")
    for combo, exp in (((), True), ((True,), True), ((False,), False), ((True, False), False), ((False, True), False), ((True, True), True), ((True, True, False), False)):
        decide("combine_rust_support", {"support_results": T("tup", *[rs(x) for x in combo])}, exp, f"{combo}")
    DT = {"float64": ("f", 8), "float32": ("f", 4), "int64": ("i", 8), "int32": ("i", 4), "uint8": ("u", 1), "uint64": ("u", 8), "bool": ("b", 1), "object": ("O", 8)}
    for have in DT:
        for want in ("float64", "int64", "bool"):
            exp = have == want or (want == "float64" and have == "float32") or (want == "int64" and have in ("int32", "uint8"))
            for nd in (1, 2, 3):
                decide("array_compatible_with_rust", {"a": T("arr", have, nd), "dtype": T("dt", want)}, exp and nd < 3, f"{have} {nd}d as {want}")
            decide("exact_array_compatible_with_rust", {"a": T("arr", have, 2), "dtype": T("dt", want)}, have == want, f"{have} 2d exactly as {want}")
    decide("array_compatible_with_rust", {"a": T("notarr"), "dtype": T("dt", "float64")}, False, "not an array")


class SupportFlow(TermFlow):
    """Conditional constant propagation over a tiny dtype model."""
    KIND = {"float64": "f", "float32": "f", "int64": "i", "int32": "i", "uint8": "u", "uint64": "u", "bool": "b", "object": "O"}
    SAFE = {("float32", "float64"), ("int32", "int64"), ("uint8", "int64")}

    def __init__(self, prog, RS, **kw):
        super().__init__(prog, **kw)
        self.RS = RS

    def attr(self, b, name, st, fr):
        if b.kind == "arr":
            if name == "dtype":
                return T("dt", b.args[0])
            if name == "ndim":
                return C(b.args[1])
        if b.kind == "dt":
            if name == "kind":
                return C(self.KIND[b.args[0]])
            if name == "name":
                return C(b.args[0])
        if b.kind == "f" and b.args[0].kind == "g" and b.args[0].args[0] is self.RS:
            kw = dict(b.args[2])
            if name == "supported":
                return kw.get("supported") or b.args[1][0]
            if name == "conversions":
                v = kw.get("conversions") or (b.args[1][2] if len(b.args[1]) > 2 else T("tup"))
                return v
            if name == "requires_conversion":
                v = kw.get("conversions") or (b.args[1][2] if len(b.args[1]) > 2 else T("tup"))
                return C(len(v.args) > 0) if v.kind == "tup" else T("a", b, name)
        return super().attr(b, name, st, fr)

    def truth(self, t):
        if t.kind == "f" and t.args[0].kind == "g" and t.args[0].args[0] is self.RS:
            s = dict(t.args[2]).get("supported") or (t.args[1][0] if t.args[1] else UNK)
            return super().truth(s)
        return super().truth(t)

    def entity(self, e, name="?"):
        if isinstance(e, Ext) and e.name in ("numpy.float64", "numpy.int64", "numpy.bool_"):
            return T("dt", {"numpy.float64": "float64", "numpy.int64": "int64", "numpy.bool_": "bool"}[e.name])
        return super().entity(e, name)

    def attr_ext(self, name):
        return None

    def compare(self, op, a, b):
        if a.kind == "dt" and b.kind == "dt" and op in ("==", "!="):
            return C((a is b) == (op == "=="))
        return super().compare(op, a, b)

    def call_result(self, rec, st, fr):
        c = rec.callee
        n = c.name if isinstance(c, Ext) else None
        if n == "builtins.isinstance" and len(rec.args) == 2:
            a, k = rec.args
            kn = getattr(k.args[0], "name", "") if k.kind == "g" else ""
            if a.kind in ("arr", "notarr") and kn == "numpy.ndarray":
                return C(a.kind == "arr")
            if k.kind == "g" and k.args[0] is self.RS:
                return C(a.kind == "f" and a.args[0].kind == "g" and a.args[0].args[0] is self.RS)
        if n == "numpy.dtype" and rec.args and rec.args[0].kind == "dt":
            return rec.args[0]
        if n == "numpy.asarray" and rec.args and rec.args[0].kind == "arr" and not rec.kwargs and len(rec.args) == 1:
            return rec.args[0]
        if n == "numpy.can_cast" and len(rec.args) >= 2 and rec.args[0].kind == "dt" and rec.args[1].kind == "dt":
            a, b = rec.args[0].args[0], rec.args[1].args[0]
            cast = rec.kwargs.get("casting") or (rec.args[2] if len(rec.args) > 2 else C("safe"))
            if cast is C("safe"):
                return C(a == b or (a, b) in self.SAFE or (a in ("int32", "uint8", "bool") and b == "float64") or (a == "bool" and b == "int64")
                         or (a in ("int64", "uint64") and b == "float64") or b == "object")
            return C(True)
        return super().call_result(rec, st, fr)

    def s_For(self, s, st, fr):
        it = self.expr(s.iter, st, fr)
        if it.kind in ("tup", "lst") and len(it.args) <= 8 and not s.orelse and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
            for x in it.args:
                if st is None:
                    return None
                self.bind(s.target, x, st, fr, s)
                st = self.block(s.body, st, fr)
            return st
        return super().s_For(s, st, fr)


def resolve_case(prog, fi, eng, setting, avail, sup):
    RS = prog.require("vectorbt._engine.RustSupport")

    def hook(tf, rec, st, fr):
        c = rec.callee
        n = c.name if isinstance(c, (FunctionInfo, Ext)) else None
        if n == "is_rust_available":
            return C(avail)
        return None

    class RF(SupportFlow):
        def item(self, b, i, n=None):
            if b.kind == "g" and i is C("engine"):
                return C(setting)
            if b.kind == "g" and getattr(b.args[0], "name", "") == "settings":
                return T("i", b, i)
            return super().item(b, i, n)

        def call_result(self, rec, st, fr):
            if rec.func.kind == "a" and rec.func.args[1] == "get" and rec.args and rec.args[0] is C("engine"):
                return C(setting)
            return super().call_result(rec, st, fr)

    tf = RF(prog, RS, call_hook=hook, inline=lambda c, rec, d: c.module.name == "vectorbt._engine" and d < 4)
    args = {"engine": C(eng), "supports_rust": T("f", T("g", RS), (C(sup),), ())}
    fr = tf.analyze(fi, args)
    out = set()
    for v, _, _ in fr.returns:
        for x in alts(v):
            out.add(("ret", cval(x)) if x.kind == "c" else ("ret?", show(x)))
    if fr.raises:
        out.add(("raise",))
    for r in tf.calls.values():
        pass
    # inlined callees may raise instead
    if not out:
        out.add(("raise",))
    return out


# -- forwarding of the engine argument --------------------------------------
RESOLVERS = ("resolve_engine", "resolve_random_engine", "is_engine_compatible_func", "seed_for_rust")


def is_engine_term(t):
    return any((x.kind == "p" and x.args[0] == "engine") or (x.kind == "a" and x.args[1] == "engine") or
               (x.kind == "i" and x.args[1] is C("engine")) for x in subterms(t)) or \
        any(fname(x) in RESOLVERS for x in subterms(t))


def check_engine_forwarding(ctx, prog):
    n = 0
    for f in prog.all_functions():
        has = f.param("engine") is not None
        in_dispatch = f.module.name.endswith(".dispatch")
        tf = TermFlow(prog)
        tf.analyze(f)
        used = False
        for r in tf.calls.values():
            if any(is_engine_term(t) for t in list(r.args) + list(r.kwargs.values()) + list(r.dstar)):
                used = True
            c = r.callee
            if not isinstance(c, FunctionInfo) or c.param("engine") is None or c.name in RESOLVERS:
                continue
            t = (r.binding or {}).get("engine")
            key = f"{f.short}->{c.short}"
            if t is not None:
                if is_engine_term(t):
                    n += 1
                    ctx.ok("forward")
                elif has:
                    ctx.violate("forward", key, r.loc(), f"{f.short} accepts an engine but hands engine={show(t)} to {c.short}")
                continue
            if r.dstar or any(a.kind == "star" for a in r.args):
                continue
            if has and (in_dispatch or c.module.name.endswith(".dispatch")):
                ctx.violate("forward", key, r.loc(), f"{f.short} accepts an engine but calls {c.short} without it")
        if has:
            ctx.unit(f.short)
            names = {x.id for s in f.node.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            if "engine" not in names and not is_abstract(f):
                ctx.violate("forward", f"{f.short}:unused", f.loc(), f"{f.short} accepts an engine and ignores it")
    ctx.at_least("engine hand-overs", n, 150)


def is_abstract(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)
