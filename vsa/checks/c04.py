"""C04: a seed fully determines every random result.

Every function that accepts, applies or forwards a seed or draws random numbers is compared with its reviewed reference;
in addition every function that takes a seed must apply or forward it before the first draw, and no other function may
touch the random state.
"""
from .scope import either, everywhere, kernels, mentions, python
from .structure import seeding

TECHNIQUE = "reference comparison by gated value numbering and effect extraction, plus a guard-and-order analysis of every seed parameter and every use of the random state"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("random", "functions that take a seed or draw are as reviewed")
    ctx.rule("kernel", "random kernels seed before drawing and draw as reviewed")
    ctx.rule("seed", "a seed is applied or handed on before the first draw, only when given, and nothing else touches the random state")
    words = mentions("seed", "set_seed", "set_seed_nb", "random", "shuffle", "shuffle_1d", "default_rng", "rand", "randint", "choice", "generate_rand_enex", "generate_random", "generate_random_both")
    python(ctx, "random", everywhere(words, ("_engine",)), 18)
    kernels(ctx, "kernel", lambda n, g, f: words(n, f) or "rand" in n, 12)
    seeding(ctx, "seed")
