"""C12: selecting columns selects every part consistently.

Indexing machinery, every indexing function of the wrapped classes, column maps and the record selection kernels are
compared with reviewed reference definitions: each member restricted to the selected columns or groups, in order.
"""
from .scope import either, everywhere, kernels, mentions, python

TECHNIQUE = "gated value numbering, effect and recurrence extraction of each function, compared in normal form with reviewed reference definitions"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("select", "indexing restricts every column- and group-dependent member to the selected columns or groups, as in the reviewed definitions")
    ctx.rule("kernel", "record and column-map selection kernels select by the column positions given")
    pred = mentions("indexing_func", "indexing_func_meta", "indexing_func_select", "pd_indexing_func", "indexing_on_mapper", "col_idxs", "group_idxs", "new_mapper", "get_by_col_idxs",
                    "select_one", "select_one_from_obj", "indexing_kwargs", "column_only_select", "group_select", "col_mapper", "col_map", "iloc", "loc", "xs", "__getitem__", "indexing_func_kwargs",
                    "sort_cols", "apply_mask", "is_sorted", "get_mapped_obj", "ParamLoc", "indexing")
    scopes = everywhere(pred, ("data.custom", "data.updater", "_settings", "_engine"))
    scopes["base.indexing"] = "*"
    scopes["utils.array_"] = ["get_ranges_arr"]
    scopes["records.col_mapper"] = "*"
    scopes["base.array_wrapper"] = "*"
    scopes["indicators.factory"] = either(scopes["indicators.factory"], ["build_columns", "IndicatorBase.*", "IndicatorFactory.__init__"]) if "indicators.factory" in scopes else ["build_columns", "IndicatorBase.*", "IndicatorFactory.__init__"]
    python(ctx, "select", scopes, 150)
    kernels(ctx, "kernel", lambda n, g, f: g == "records" or "group" in n and g == "base", 15)
