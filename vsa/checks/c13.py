"""C13: grouping governs computation and labels.

Every function that accepts or forwards a grouping, the grouper, the wrapper and the column maps are compared with
reviewed reference definitions; the grouped kernels with theirs.
"""
from .scope import either, everywhere, kernels, mentions, python

TECHNIQUE = "gated value numbering, effect and recurrence extraction of each function, compared in normal form with reviewed reference definitions"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("group", "values and labels are computed under the same grouping, as in the reviewed definitions")
    ctx.rule("kernel", "grouped and mapped-array kernels reduce exactly the columns of each group")
    pred = mentions("group_by", "grouper", "get_group_lens", "group_lens", "get_groups", "regroup", "get_columns", "wrap_reduced", "col_mapper", "group_select", "get_col_arr", "column_only_select", "cash_sharing")
    scopes = everywhere(pred, ("_settings", "_engine"))
    scopes["base.column_grouper"] = "*"
    scopes["base.array_wrapper"] = "*"
    scopes["base.accessors"] = "*"
    scopes["records.col_mapper"] = "*"
    python(ctx, "group", scopes, 250)
    kernels(ctx, "kernel", lambda n, g, f: "group" in n or "squeeze" in n or "flatten" in n or g == "records", 20)
