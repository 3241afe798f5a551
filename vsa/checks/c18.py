"""C18: predefined metrics and subplots refer to things that exist.

The metric and subplot tables, the report builders, attribute resolution and the functions attached from tables are
compared with reviewed references; separately, every dotted path and attribute a table names is resolved against the
class it is defined for.
"""
from .scope import either, everywhere, mentions, python
from .structure import tables

TECHNIQUE = "static evaluation of the declarative tables and resolution of every attribute path against the class hierarchy, plus reference comparison of the report builders by gated value numbering"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("builder", "metric and subplot tables, their defaults and the report builders are as reviewed")
    ctx.rule("exists", "every attribute, method and option named by a predefined metric or subplot exists on the object it is defined for, and its entries are well formed")
    pred = either("*metrics=", "*subplots=", "*stats_defaults", "*plots_defaults", "*_config=", "*resolve_self", mentions("metrics", "subplots", "stats_defaults", "plots_defaults", "calc_func", "plot_func"))
    scopes = everywhere(pred)
    for m in ("generic.stats_builder", "generic.plots_builder", "utils.attr_", "utils.tags", "generic.decorators", "records.decorators", "portfolio.decorators", "returns.qs_adapter"):
        scopes[m] = "*"
    python(ctx, "builder", scopes, 80)
    tables(ctx, "exists")
