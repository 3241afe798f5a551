"""C21: enumerated options: accepted, distinct and handled.

Option lists (declared type, instance and readable values) are checked for distinct codes and complete decoding; mapping
between names and codes and every function that maps an option is compared with reviewed references; the kernels that
branch on an option are compared with theirs for every member.
"""
from .scope import either, everywhere, kernels, mentions, python
from .structure import enum_lists, mode_kernels

TECHNIQUE = "static evaluation of option lists, per-member case analysis of the kernels that branch on them and reference comparison by gated value numbering"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]

ENUMS = ("TrendMode", "StopType", "RangeStatus", "DrawdownStatus", "CallSeqType", "InitCashMode", "SizeType", "Direction", "AccumulationMode", "TradeStatus", "OrderSide", "OrderStatus",
         "TradesType", "NoAdjStopType", "StopEntryPrice", "StopExitPrice", "StopUpdateMode", "SignalConflictMode", "DirectionConflictMode", "OppositeEntryMode", "TradeDirection", "RejectedOrderError")


def run(ctx):
    ctx.rule("enum", "members of an option list have distinct codes, and status texts and list declarations match them")
    ctx.rule("map", "option names are mapped to codes and back as in the reviewed definitions")
    ctx.rule("handled", "kernels that branch on an option treat every member as documented")
    enum_lists(ctx, "enum")
    scopes = everywhere(mentions("map_enum_fields", "map_enum_values", "apply_mapping", "to_mapping", "reverse_mapping", "mapping", "enum", "value_map", "ignore_type", "lower", "upper",
                               *ENUMS))
    for m in ("utils.enum_", "utils.mapping", "portfolio.enums", "signals.enums", "labels.enums", "generic.enums"):
        scopes[m] = "*"
    python(ctx, "map", scopes, 130)
    words = mentions(*ENUMS)
    kernels(ctx, "handled", lambda n, g, f: g == "labels" or words(n, f), 8)
    mode_kernels(ctx, "handled")
