"""C16: unset options follow the setting of the same meaning.

Every function that reads the global settings, the settings tree itself and the dictionary merging that combines settings
with explicit options are compared with reviewed reference definitions; values read from the settings must not be stored to.
"""
from .scope import either, everywhere, mentions, python

TECHNIQUE = "gated value numbering, effect and recurrence extraction of each function, compared in normal form with reviewed reference definitions"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("setting", "an unset option takes the setting of its own meaning at call time and an explicit one wins, as in the reviewed definitions")
    scopes = everywhere(mentions("settings", "stats_defaults", "plots_defaults", "defaults", "resolve_dict"))
    scopes["_settings"] = "*"
    scopes["utils.config"] = "*"
    python(ctx, "setting", scopes, 120)
