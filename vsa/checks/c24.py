"""C24: saved objects restore to equal objects.

Writers and readers of saved state, the configuration classes whose flags and reset state they carry, and the equality
functions that compare restored objects are compared with reviewed reference definitions.
"""
from .scope import either, everywhere, mentions, python

TECHNIQUE = "gated value numbering, effect and recurrence extraction of each function, compared in normal form with reviewed reference definitions"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("pickle", "every piece of state written is read back under the same name, and equality compares all of it, as in the reviewed definitions")
    pred = either(mentions("dumps", "loads", "save", "load", "load_update", "pickle", "dill", "__dumps__", "reset_dct_", "PickleableDict", "__eq__", "is_deep_equal"))
    scopes = everywhere(pred)
    scopes["utils.config"] = "*"
    scopes["utils.checks"] = ["is_*", "method_accepts_argument", "func_accepts_arg"]
    python(ctx, "pickle", scopes, 60)
