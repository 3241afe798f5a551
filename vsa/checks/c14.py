"""C14: broadcastable arguments are looked up by row and column.

Broadcasting, alignment and element selection, the functions that broadcast and hand on arguments, and the kernels that
look elements up are compared with reviewed reference definitions.
"""
from .scope import either, everywhere, flex, kernels, mentions, python, portfolio_kernels

TECHNIQUE = "gated value numbering, effect and recurrence extraction of each function, compared in normal form with reviewed reference definitions"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("broadcast", "arguments are broadcast, aligned and selected as in the reviewed definitions")
    ctx.rule("kernel", "kernels look each broadcastable argument up at the row and column being processed")
    pred = mentions("broadcast", "broadcast_to", "keep_raw", "flex_2d", "keep_flex", "align_index_to", "align_indexes", "broadcast_index", "to_2d", "to_2d_array", "to_1d_array", "wrap_broadcasted", "broadcast_kwargs",
                    "broadcast_named_args", "to_dict", "flex_select_auto_nb", "broadcast_to_array_of", "broadcast_to_axis_of")
    scopes = everywhere(pred, ("_settings", "_engine"))
    scopes["base.reshape_fns"] = "*"
    scopes["utils.params"] = "*"
    scopes["base.index_fns"] = "*"
    scopes["base.accessors"] = "*"
    scopes["base.array_wrapper"] = "*"
    python(ctx, "broadcast", scopes, 150)
    kernels(ctx, "kernel", lambda n, g, f: n.startswith("flex_") or g == "base", 10)
    words = mentions("flex_select_auto_nb", "flex_2d", "flex_select_nb", "flex_choose_i_and_col_nb")
    kernels(ctx, "kernel", lambda n, g, f: words(n, f), 8, aspect=flex)
    portfolio_kernels(ctx, "kernel", aspect=flex)
