"""C11: objects are immutable and cached results are never stale.

The caching decorators, configured-object construction, copying and replacement are compared with reviewed references; every
other function is compared in what it stores, copies and calls in place; methods that are newly cached may only depend on
state that never changes after construction.
"""
from .scope import everywhere, mentions, python, writes

TECHNIQUE = "gated value numbering, effect and recurrence extraction of each function, compared in normal form with reviewed reference definitions"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


CORE = ("utils.decorators", "base.array_wrapper", "records.col_mapper", "utils.attr_")


def run(ctx):
    ctx.rule("cache", "caching decorators, construction, copying and replacement of objects are as reviewed")
    ctx.rule("effect", "no function stores to an object or container other than those its reviewed definition stores to")
    python(ctx, "cache", {"utils.decorators": "*", "utils.config": ["Configured.*", "Config.*", "Pickleable*", "copy_dict", "merge_dicts", "update_dict", "set_dict_item", "convert_to_dict"],
                          "base.array_wrapper": "*", "base.column_grouper": "ColumnGrouper.*", "records.col_mapper": "*", "utils.attr_": "*", "utils.checks": ["is_hashable*", "is_deep_equal"]}, 150)
    python(ctx, "cache", everywhere(mentions("use_caching", "impacts_caching", "disable_caching", "is_cacheable", "cacheable", "blacklist", "whitelist"), CORE), 2)
    python(ctx, "effect", everywhere("*"), 900, aspect=writes)
