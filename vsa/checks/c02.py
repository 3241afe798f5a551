"""C02: columns and groups are processed independently.

Every multi-column kernel, the simulators and the per-column methods are compared with reviewed column-independent
definitions; a departure counts when it changes which cells are read, which buffers are kept, or where running state is
initialised and at which loop level it is carried.
"""
from .scope import kernels, python, portfolio_kernels, states

TECHNIQUE = "gated value numbering, effect and recurrence extraction of each function, compared in normal form with reviewed reference definitions"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("column", "kernels keep running state per column and read only the column being processed, as in the reviewed definitions")
    ctx.rule("simulate", "simulators keep account state per column and group")
    ctx.rule("method", "methods hand columns and column maps to the kernels as reviewed")
    kernels(ctx, "column", lambda n, g, f: True, 180, aspect=states, typing=True)
    portfolio_kernels(ctx, "simulate", aspect=states)
    python(ctx, "method", {"generic.accessors": "*", "signals.accessors": "*", "returns.accessors": "*", "portfolio.base": "*", "records.base": "*", "records.mapped_array": "*", "records.col_mapper": "*",
                           "generic.ranges": "*", "generic.drawdowns": "*", "portfolio.orders": "*", "portfolio.trades": "*", "portfolio.logs": "*", "base.accessors": "*", "base.combine_fns": "*", "base.reshape_fns": "*",
                           "indicators.factory": "*", "signals.factory": "*"}, 400, aspect=states)
