"""C27: kernels compute their definitions.

Every compiled kernel behind rolling statistics, indicators, metrics, signal generation, labelling and record selection
is reduced to a recurrence system (inputs, loop-carried values, array cells, effects) and compared in algebraic normal
form with a reviewed reference definition (spec/c27_*.py).  Functions registered as Numba overloads are compared a second
time as the compiler sees them: type tests decided on the type level, the returned implementation applied.
"""
import ast

from ..kernel import check_spec
from ..program import bind_call, const, src
from .common import load_spec
from .scope import kernels, portfolio_kernels, python

TECHNIQUE = "gated value numbering; recurrence-system comparison of every kernel with reviewed reference definitions in algebraic normal form"
LEVEL_NOTE = ("Holds for every input in exact arithmetic with NaN tests kept as conditions; floating-point error is abstracted. The references were reviewed against the "
              "docstrings, pandas and empyrical; constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["Real arithmetic.", "The reference definitions in vsa/spec/c27_*.py are the published ones."]

GROUPS = {
    "generic": ["generic.nb"],
    "indicators": ["indicators.nb"],
    "returns": ["returns.nb"],
    "signals": ["signals.nb"],
    "labels": ["labels.nb"],
    "records": ["records.nb"],
    "base": ["base.combine_fns", "base.column_grouper", "base.index_fns", "base.reshape_fns", "utils.array_", "utils.math_", "utils.random_", "portfolio.nb", "returns.metrics"],
}
MINIMUM = {"generic": 70, "indicators": 10, "returns": 30, "signals": 16, "labels": 8, "records": 12, "base": 10}


def is_template(prog, fi):
    """The function calls, under its underscored name, a function registered as a Numba overload of itself."""
    for n in fi.module.tree.body:
        v = getattr(n, "value", None)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Call) and src(v.func.func).split(".")[-1] == "overload" and v.args and src(v.args[0]) == "_" + fi.name:
            return True
    return False


def kurtosis_convention(ctx, prog):
    """The published deflated Sharpe ratio takes the (non-excess) kurtosis."""
    n = 0
    target = prog.require("vectorbt.returns.metrics.deflated_sharpe_ratio")
    for fn in prog.all_functions():
        for c in ast.walk(fn.node):
            if isinstance(c, ast.Call) and prog.deref(prog.resolve(c.func, fn.module, fn)) is target:
                b = bind_call(c, target, skip_self=False)
                k = (b or {}).get("kurtosis") if isinstance(b, dict) else None
                k = next((kw.value for kw in c.keywords if kw.arg == "kurtosis"), k)
                n += 1
                if isinstance(k, ast.Call) and src(k.func).split(".")[-1] == "kurtosis":
                    fisher = next((kw.value for kw in k.keywords if kw.arg == "fisher"), None)
                    if fisher is None or const(fisher) is True:
                        ctx.violate("convention", f"{fn.qualname}:kurtosis", fn.loc(k), "the deflated Sharpe ratio is defined with kurtosis (3 for a normal distribution), but is given excess kurtosis")
                    else:
                        ctx.ok("convention")
                else:
                    ctx.unknown(fn.loc(c), "kurtosis argument not recognised")
    ctx.at_least("deflated Sharpe ratio calls", n, 1)


def run(ctx):
    prog = ctx.prog
    ctx.rule("definition-python", "Python-level definitions and the functions that choose and parametrise kernels are as reviewed")
    ctx.rule("convention", "statistical moments follow the convention of the published formula")
    kurtosis_convention(ctx, prog)
    for g, mods in GROUPS.items():
        ctx.rule("definition-" + g, f"kernels of {', '.join(mods)} compute their reference definitions")
        spec = load_spec(prog, "c27_" + g)
        n = 0
        for name, sf in spec.functions.items():
            fi = None
            for m in mods:
                mod = prog.modules.get("vectorbt." + m)
                if mod is not None and name in mod.functions:
                    fi = mod.functions[name]
                    break
            if fi is None:
                if not name.startswith("_"):
                    ctx.unknown("vectorbt." + mods[0] + "." + name, "kernel not found")
                continue
            n += 1
            check_spec(ctx, "definition-" + g, prog, fi, sf)
            if not name.startswith("_") and g != "labels" and is_template(prog, fi):
                check_spec(ctx, "definition-" + g, prog, fi, sf, typing_mode=True)
        ctx.at_least(f"{g} kernels", n, MINIMUM[g])
    python(ctx, "definition-python", {"returns.metrics": "*", "returns.accessors": "*", "returns.qs_adapter": "*", "generic.accessors": "*", "generic.drawdowns": "*", "generic.ranges": "*", "indicators.basic": "*",
                                      "indicators.factory": "*", "labels.generators": "*", "signals.generators": "*", "signals.accessors": "*", "signals.factory": "*", "portfolio.base": "*", "portfolio.trades": "*", "portfolio.orders": "*",
                                      "records.mapped_array": "*", "base.accessors": "*", "base.array_wrapper": "*", "records.base": "*", "utils.datetime_": "*", "base.combine_fns": "*", "ohlcv_accessors": "*", "utils.math_": "*", "utils.array_": "*"}, 400)
