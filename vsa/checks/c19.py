"""C19: templates are substituted wherever they are accepted.

The template classes, the recursive substitution and every function that substitutes, forwards or accepts templates are
compared with reviewed reference definitions.
"""
from .scope import either, everywhere, mentions, python

TECHNIQUE = "gated value numbering, effect and recurrence extraction of each function, compared in normal form with reviewed reference definitions"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("template", "templates are detected at any depth and substituted before the enclosing arguments are used, as in the reviewed definitions")
    pred = mentions("deep_substitute", "has_templates", "RepEval", "RepFunc", "Rep", "Sub", "template_mapping", "template_mappings", "substitute")
    scopes = everywhere(pred)
    scopes["utils.template"] = "*"
    scopes["utils.config"] = ["set_dict_item", "get_func_arg_names", "get_func_kwargs", "merge_dicts", "copy_dict", "update_dict", "convert_to_dict"]
    scopes["utils.checks"] = ["is_namedtuple"]
    python(ctx, "template", scopes, 40)
