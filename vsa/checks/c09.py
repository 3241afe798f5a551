"""C09: order outcome protocol.

`buy_nb` and `sell_nb` are reduced to gated terms giving (status, status information, filled size) and compared, case
by case, with the documented outcome rules; `execute_order_nb` and `process_order_nb` are compared with a reference
that leaves the account alone unless the order is filled, writes exactly one order record per fill and one log record
per logged order, and checks the buffer bound before writing.
"""
from ..gated import C, P, T, RAISE, NOT
from ..kernel import Comparer, Kernel, check_spec
from .common import NB, _st, load_spec, prog_enum
from .scope import portfolio_kernels, python

TECHNIQUE = "gated value numbering with algebraic normal forms, compared case by case with a reference outcome protocol"
LEVEL_NOTE = ("Holds for every input in exact arithmetic; rounding to zero is abstracted. "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["Real arithmetic; values within the library's closeness tolerance of zero count as zero."]

E = "vectorbt.portfolio.enums."


def outcome(k):
    """Project the result of buy_nb / sell_nb to (status, status_info, size)."""
    fl = k.flow

    def proj(v):
        if v is RAISE:
            return RAISE
        if v.kind == "ite":
            from ..gated import ITE
            return ITE(v.args[0], proj(v.args[1]), proj(v.args[2]))
        r = fl.item(v, C(1))
        return T("tup", *[fl.attr(r, f, _st(), None) for f in ("status", "status_info", "size")])
    return proj(k.ret)


def check_outcome(ctx, prog, spec, name, ref):
    fi = prog.require(NB + name)
    ctx.unit(fi.qualname)
    sf = spec.functions[ref]
    for d in prog_enum(prog, "Direction").values():
        args = lambda f: {n: (C(d) if n == "direction" else P(n)) for n in f.param_names}
        a, b = Kernel(prog, fi, args=args(fi)), Kernel(prog, sf, args=args(sf))
        a.ret = outcome(a)
        for ok, what, where, msg in Comparer(prog, a, b, 8000).run():
            report(ctx, "outcome", fi, ok, what, where, msg)


def order_with(prog, **fixed):
    """A symbolic order with some fields given."""
    cls = prog.require(E + "Order")
    return T("nt", cls, *[(n, fixed.get(n, T("a", P("order"), n))) for n in cls.attrs])


def report(ctx, rule, fi, ok, what, where, msg):
    if ok is True:
        ctx.ok(rule)
    elif ok is False:
        ctx.violate(rule, f"{fi.qualname}:{what[:90]}", where, f"{fi.name}: {msg}")
    else:
        ctx.unknown(where, f"{fi.name}: {msg}")


def run(ctx):
    prog = ctx.prog
    ctx.rule("reviewed", "the simulators and the code that allocates record buffers follow their reviewed definitions")
    ctx.rule("outcome", "status, status information and filled size of an order follow the documented rules for limits, cash, partial fills and rejection")
    ctx.rule("protocol", "an order that is not filled leaves the account as it was; a fill adds one order record and a logged order one log record, numbered consecutively, after the buffer bound is checked; a rejection raises when asked to")
    spec = load_spec(prog, "c09")
    check_outcome(ctx, prog, spec, "buy_nb", "buy_outcome")
    check_outcome(ctx, prog, spec, "sell_nb", "sell_outcome")
    def one(name, opaque=(), raises=True, args=None):
        fi = prog.require(NB + name)
        check_spec(ctx, "protocol", prog, fi, spec.functions[name], opaque=opaque, limit=8000, raises=raises, args=args)
    sizes, dirs = prog_enum(prog, "SizeType"), prog_enum(prog, "Direction")
    invalid = lambda e: [min(e.values()) - 1, max(e.values()) + 1]
    fi = prog.require(NB + "execute_order_nb")
    for s in list(sizes.values()) + invalid(sizes):
        for d in list(dirs.values()) + invalid(dirs):
            if s in sizes.values() or d in dirs.values():
                o = order_with(prog, size_type=C(s), direction=C(d))
                one("execute_order_nb", ("buy_nb", "sell_nb"), args={n: o if n == "order" else P(n) for n in fi.param_names})
    one("process_order_nb", ("execute_order_nb", "raise_rejected_order_nb"))
    one("order_nb")
    one("close_position_nb")
    one("order_nothing_nb")
    one("replace_inf_price_nb")
    one("try_order_nb", ("execute_order_nb",))
    one("raise_rejected_order_nb")
    portfolio_kernels(ctx, "reviewed")
    python(ctx, "reviewed", {"portfolio.base": "Portfolio.from_*", "portfolio.dispatch": "*", "portfolio.orders": "*", "portfolio.logs": "*", "portfolio.enums": "*"}, 60)
