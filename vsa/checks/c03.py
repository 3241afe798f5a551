"""C03: the caller's data is never modified.

Every function and kernel is compared with its reviewed reference in what it stores to, which buffers and copies it makes
and what it calls in place.
"""
from .scope import everywhere, kernels, python, portfolio_kernels, writes
from .structure import handed_in

TECHNIQUE = "gated value numbering, effect and recurrence extraction of each function, compared in normal form with reviewed reference definitions"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("effect", "no function stores to an argument or an existing object other than those its reviewed definition stores to, and copies are made before element assignment")
    ctx.rule("handed", "no function changes in place a container that may be the very object its caller passed")
    ctx.rule("kernel", "kernels write only to buffers they allocate, or to their documented output buffers")
    handed_in(ctx, "handed")
    python(ctx, "effect", everywhere("*"), 900, aspect=writes)
    kernels(ctx, "kernel", lambda n, g, f: True, 180, aspect=writes, typing=True)
    portfolio_kernels(ctx, "kernel", aspect=writes)
