"""C20: all simulation modes maintain the same account state.

The four callback simulators (column-by-column, row-by-row, and their flexible forms) and the three fixed simulators are
each compared with a reference instantiated from one template (spec/simulators.py): for every path of every nested loop,
which state each order is processed with, which quantities it stores back to which column or group, what every context
passed to every callback contains, and how records, valuation prices, values and returns are carried from one step to the
next. Call-sequence and valuation helpers are compared with spec/c20.py."""
from ..gated import C, P
from ..kernel import check_spec
from ..program import FunctionInfo
from . import simulators
from .common import NB, load_spec, prog_enum
from .scope import python

TECHNIQUE = "recurrence and effect extraction from the simulation kernels, compared with one reference simulator template by gated value numbering"
LEVEL_NOTE = ("Holds for every input, grouping, call sequence and callback in exact arithmetic; user callbacks are opaque functions of the contexts they receive, order execution is C08/C09. "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["User callbacks return within the documented protocol and do not write to context arrays other than documented ones.", "Real arithmetic."]
OPAQUE = ("insert_argsort_nb", "approx_order_value_nb", "sort_call_seq_out_nb", "replace_inf_price_nb", "execute_order_nb", "shuffle_call_seq_nb", "require_call_seq")
RECORDS = ("update_pos_record_nb", "update_open_pos_stats_nb", "init_last_pos_record_nb")
HELPERS = {"group_value"}


def find(prog, name):
    for m in (NB, "vectorbt.utils.array_.", "vectorbt.returns.nb."):
        fi = prog.get(m + name)
        fi = prog.deref(fi) if fi is not None else None
        if isinstance(fi, FunctionInfo):
            return fi
    return prog.require(NB + name)

# read the account back from the records, row by row or in the order of simulation
ACCOUNT = ["Portfolio." + m for m in ("get_init_cash", "asset_flow", "assets", "cash_flow", "cash", "asset_value", "value", "returns", "total_profit", "final_value")]


def run(ctx):
    prog = ctx.prog
    ctx.rule("reviewed", "the portfolio constructors choose and feed the simulators as reviewed")
    ctx.rule("simulator", "every simulation mode feeds each order the current state of its column and group, stores every changed quantity back there and gives callbacks the same information under the same names")
    ctx.rule("helper", "group value, approximate order value, call sequences and element access are computed from the state of the right column, group and row")
    sims = simulators.load(prog)
    for name in simulators.NAMES:
        simulators.check_simulator(ctx, "simulator", prog, sims, name)
    spec = load_spec(prog, "c20")
    n = 0
    for name, sf in spec.functions.items():
        if name in HELPERS:
            continue
        fi = find(prog, name)
        n += 1
        cases = [{}]
        for par, en in (("size_type", "SizeType"), ("call_seq_type", "CallSeqType")):
            if par in fi.param_names and name in ("approx_order_value_nb", "build_call_seq_nb", "build_call_seq"):
                cases = [{par: C(v)} for v in prog_enum(prog, en).values()]
        for c in cases:
            check_spec(ctx, "helper", prog, fi, sf, opaque=OPAQUE, limit=6000, args={p: c.get(p, P(p)) for p in fi.param_names} if c else None)
    rec = load_spec(prog, "c07")
    for name in RECORDS:
        n += 1
        check_spec(ctx, "helper", prog, find(prog, name), rec.functions[name], opaque=("get_trade_stats_nb", "update_open_pos_stats_nb"), limit=6000)
    ctx.at_least("helpers", n, 20)
    ctx.at_least("simulator obligations", ctx.obligations["simulator"], 300)
    python(ctx, "reviewed", {"portfolio.base": ["Portfolio.from_*", "Portfolio.__init__", "_resolve*", *ACCOUNT], "portfolio.dispatch": "*", "portfolio.enums": "*"}, 55)
