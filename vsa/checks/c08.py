"""C08: conservation of cash, position and debt.

Every path of `buy_nb` and `sell_nb` that ends in a filled order is evaluated to a gated term and shown equal, in
normal form, to the bookkeeping equations for the size it reports as filled; paths that end unfilled are shown to
return the account they were given.  The reconstruction kernels (asset and cash flow, cash, assets, value, profit, their
grouped and simulation-order variants) are reduced to recurrence systems and compared with the same equations.
"""
import os

from ..gated import C, NOT, P, RAISE, T, case_text, cval, equal, show, spec_module
from ..kernel import Kernel, check_spec, definite, rewrite
from .common import NB, _st, load_spec, prog_enum
from .scope import mentions, portfolio_kernels, python

TECHNIQUE = "gated value numbering with algebraic normal forms; recurrence-system comparison against bookkeeping equations"
LEVEL_NOTE = ("Holds for every input in exact arithmetic; rounding to zero and floating-point error are abstracted. "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["Real arithmetic; values within the library's closeness tolerance of zero count as zero."]

KERNELS = ["get_free_cash_diff_nb", "update_value_nb", "get_long_size_nb", "get_short_size_nb", "asset_flow_nb", "assets_nb", "cash_flow_nb",
           "sum_grouped_nb", "cash_flow_grouped_nb", "asset_value_grouped_nb", "init_cash_grouped_nb", "init_cash_nb", "cash_nb",
           "cash_in_sim_order_nb", "cash_grouped_nb", "asset_value_nb", "value_in_sim_order_nb", "value_nb", "total_profit_nb",
           "total_profit_grouped_nb", "final_value_nb", "total_return_nb", "returns_in_sim_order_nb", "asset_returns_nb",
           "benchmark_value_nb", "benchmark_value_grouped_nb", "total_benchmark_return_nb", "gross_exposure_nb"]


FIELDS = ["cash", "position", "debt", "free_cash"]
RES = ["price", "fees", "side"]


def check_fill(ctx, prog, spec, name, effects):
    fi = prog.require(NB + name)
    ctx.unit(fi.qualname)
    k = Kernel(prog, fi)
    fl = k.flow
    for p in ("exec_state", "price", "fees", "fixed_fees", "slippage"):
        if p not in fi.param_names:
            ctx.unknown(fi.loc(), f"{name} has no parameter {p}")
            return
    status = prog_enum(prog, "OrderStatus")
    n_filled = 0
    # ITE distributes over tuples, so open on the status the leaf reports
    for v, conds, node in open_status(fl, k):
        if v is RAISE:
            continue
        state, res = fl.item(v, C(0)), fl.item(v, C(1))
        st = fl.attr(res, "status", _st(), None)
        where = fi.loc(node) if node is not None else fi.loc()
        if st.kind != "c":
            ctx.unknown(where, f"{name}: status of a result is not a constant")
            continue
        if cval(st) == status["Filled"]:
            n_filled += 1
            size = fl.attr(res, "size", _st(), None)
            sf = spec.functions[effects]
            ks = Kernel(prog, sf, args={n: (size if n == "filled" else P(n)) for n in sf.param_names})
            zero = fl.compare("==", size, C(0))
            r = equal(C(1), C(0), hyp=conds + (zero,), limit=4000)
            if r.ok is True:
                ctx.ok("nonzero")
            elif r.ok is False:
                ctx.violate("nonzero", name, where, f"an order can be reported as filled with size zero (case: {case_text(r.facts, 8)})")
            else:
                ctx.unknown(where, f"{name}: zero size: {r.why}")
            got = [fl.attr(state, f, _st(), None) for f in FIELDS] + [fl.attr(res, f, _st(), None) for f in RES]
            for i, f in enumerate(FIELDS + RES):
                judge(ctx, "fill", fi, where, name, f, got[i], ks.flow.item(ks.ret, C(i)), conds, "a filled order leaves")
        else:
            for f in FIELDS:
                judge(ctx, "unfilled", fi, where, name, f, fl.attr(state, f, _st(), None), T("a", P("exec_state"), f), conds, "an order that is not filled returns")
    ctx.at_least(f"filled outcomes of {name}", n_filled, 1)


def open_status(fl, k):
    def open_(v, conds, node, depth=0):
        if v is RAISE:
            return
        res = fl.item(v, C(1))
        st = fl.attr(res, "status", _st(), None)
        t = st if st.kind == "ite" else v if v.kind == "ite" else None
        if t is not None and depth < 30:
            c = t.args[0]
            yield from open_(choose(v, c, True), conds + (c,), node, depth + 1)
            yield from open_(choose(v, c, False), conds + (NOT(c),), node, depth + 1)
        else:
            yield v, conds, node
    for v, conds, node in k.leaves:
        yield from open_(v, conds, node)


def choose(v, c, truth):
    """v with every gate on c decided."""
    def f(t):
        if t.kind == "ite" and t.args[0] is c:
            return rewrite(t.args[1] if truth else t.args[2], f, memo)
        return None
    memo = {}
    r = rewrite(v, f, memo)
    return r


def judge(ctx, rule, fi, where, name, f, got, want, conds, text):
    r = equal(got, want, hyp=conds, limit=4000)
    if r.ok is True:
        ctx.ok(rule)
    elif r.ok is False and definite(*r.diff):
        ctx.violate(rule, f"{name}:{f}", where, f"{text} {f} = {show(r.diff[0])[:160]}, but the equations give {show(r.diff[1])[:160]} (case: {case_text(r.facts, 8)})")
    else:
        ctx.unknown(where, f"{name}: {f}: {r.why or 'difference not definite'}")


def run(ctx):
    prog = ctx.prog
    ctx.rule("reviewed", "the portfolio's methods hand the recorded amounts to those kernels as reviewed")
    ctx.rule("fill", "a filled order changes cash by traded value and fees, position by the filled size, debt by the value sold short or covered, free cash by cash change less twice the debt change")
    ctx.rule("nonzero", "no path reports an order of size zero as filled")
    ctx.rule("unfilled", "an order that is not filled returns the account unchanged")
    ctx.rule("reconstruct", "flows, cash, assets, value and profit reconstructed from records follow the same equations")
    spec = load_spec(prog, "c08")
    check_fill(ctx, prog, spec, "buy_nb", "buy_effects")
    check_fill(ctx, prog, spec, "sell_nb", "sell_effects")
    n = 0
    for name in KERNELS:
        fi = prog.get(NB + name)
        if fi is None:
            ctx.unknown(NB + name, "kernel not found")
            continue
        n += 1
        check_spec(ctx, "reconstruct", prog, fi, spec.functions[name])
    ctx.at_least("bookkeeping kernels", n, 20)
    words = mentions("init_cash", "cash_flow", "asset_flow", "assets", "cash", "orders", "close", "free", "value", "asset_value", "cash_sharing", "get_filled_close", "total_profit", "final_value")
    python(ctx, "reviewed", {"portfolio.base": words, "portfolio.dispatch": "*", "portfolio.orders": "*", "utils.math_": "*"}, 60)
