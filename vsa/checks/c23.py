"""C23: updates keep history and prefer new values.

Data download, alignment, update, concatenation and selection, the built-in data sources with their per-symbol options,
the updater and the date-time conversions they use are compared with reviewed reference definitions.
"""
from .scope import python

TECHNIQUE = "gated value numbering, effect and recurrence extraction of each function, compared in normal form with reviewed reference definitions"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("update", "data classes store, align, update and select as in the reviewed definitions")
    python(ctx, "update", {"data.base": "*", "data.custom": "*", "data.updater": "*", "utils.datetime_": "*", "utils.schedule_": ["ScheduleManager.*", "AsyncScheduler.*"]}, 40)
