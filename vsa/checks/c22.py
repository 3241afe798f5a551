"""C22: sets of a split are disjoint, ordered and complete.

The range generators, the division of a range into sets and the accessor methods that apply them are reduced to gated
terms, effects and loop recurrences and compared with reviewed reference definitions: consecutive half-open pieces that
add up to the range, each length positive, errors raised otherwise.
"""
from .scope import python

TECHNIQUE = "gated value numbering, effect and recurrence extraction of each function, compared in normal form with reviewed reference definitions"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("split", "splitters generate their ranges and divide them into consecutive, disjoint, complete sets as in the reviewed definitions; invalid lengths raise")
    python(ctx, "split", {
        "generic.splitters": "*",
        "generic.accessors": ["GenericAccessor.split", "GenericAccessor.range_split", "GenericAccessor.rolling_split", "GenericAccessor.expanding_split"],
        "base.index_fns": ["find_first_occurrence"],
    }, 8)
