"""C17: indicator, label and signal-generator declarations bind what they compute.

Declarations (inputs, in-outputs, parameters, defaults, outputs, cache and apply functions), the factories that turn them
into classes, and the kernels they name are compared with reviewed references; separately, each declaration's names are
bound against the signature of the function it names and its outputs counted against what that function returns.
"""
from .scope import either, kernels, python
from .structure import declarations, late_binding, stale_positions

TECHNIQUE = "reference comparison by gated value numbering, plus static binding of each declaration to the signature of the function it names"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("declaration", "declarations and factories are as reviewed")
    ctx.rule("kernel", "the kernels behind built-in indicators, labels and signal generators compute their reviewed definitions")
    ctx.rule("positions", "positions picked out of a list are used with that list only")
    ctx.rule("late", "a function made in a loop and kept uses the values of the iteration that made it")
    ctx.rule("bind", "declared inputs, parameters and options line up by name with the arguments of the underlying function, and outputs with what it returns")
    python(ctx, "declaration", {"indicators.basic": "*", "indicators.configs": "*", "indicators.factory": "*", "labels.generators": "*", "signals.generators": "*", "signals.factory": "*", "utils.params": "*",
                                "utils.config": ["merge_dicts", "get_func_arg_names", "get_func_kwargs"], "base.combine_fns": "*", "ohlcv_accessors": "*",
                                "indicators.dispatch": "*", "labels.dispatch": "*", "signals.dispatch": "*", "signals.accessors": ["SignalsAccessor.generate*", "SignalsAccessor.clean"]}, 100)
    kernels(ctx, "kernel", lambda n, g, f: g in ("indicators", "labels") or g == "signals" and ("stop" in n or "rand" in n or "enex" in n or "ex" in n), 30, typing=True)
    declarations(ctx, "bind")
    stale_positions(ctx, "positions")
    late_binding(ctx, "late", lambda m: any(x in m for x in ("indicators", "signals", "labels")))
