"""C01: results at a row never depend on later rows.

Every row-wise kernel, the simulators and the methods built on them are compared with reviewed causal definitions; a
departure counts when it changes which cells are read, over which ranges, or what state is carried along the rows.
"""
from .scope import kernels, mentions, python, reads, portfolio_kernels

TECHNIQUE = "gated value numbering, effect and recurrence extraction of each function, compared in normal form with reviewed reference definitions"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("causal", "kernels that return one value per row read the cells their reviewed causal definition reads")
    ctx.rule("simulate", "simulators and order bookkeeping use only values known at the row being processed")
    ctx.rule("method", "methods call the causal kernels with the windows and offsets reviewed")
    kernels(ctx, "causal", lambda n, g, f: g in ("generic", "indicators", "returns", "signals") or g == "labels", 120, aspect=reads, typing=True)
    portfolio_kernels(ctx, "simulate", aspect=reads)
    python(ctx, "method", {"generic.accessors": "*", "signals.accessors": "*", "signals.generators": "*", "signals.factory": "*", "returns.accessors": "*", "indicators.basic": "*", "indicators.factory": "*",
                           "portfolio.base": "*", "generic.ranges": "*", "generic.drawdowns": "*", "portfolio.trades": "*", "labels.generators": "*", "base.accessors": "*"}, 300, aspect=reads)
