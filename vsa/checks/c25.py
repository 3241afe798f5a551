"""C25: cached values are computed once and complete; background jobs stop when asked.

The cached-attribute descriptors (double-checked locking: test, acquire, test again, compute, publish) and the scheduler
are compared with reviewed reference definitions, including the order of the lock, the second test and the publication;
the structure of each locked region is checked on its own as well.
"""
from .scope import python
from .structure import locked_publication

TECHNIQUE = "lock-region analysis (re-test and single publication inside the lock) plus reference comparison by gated value numbering and effect extraction"
LEVEL_NOTE = ("Holds for every input of the functions listed in the evidence, up to the calls the references keep opaque (third-party libraries, callbacks). "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["The reviewed references in vsa/ref and vsa/spec state the intended behaviour.", "Third-party functions (NumPy, pandas, Plotly) behave as documented."]


def run(ctx):
    ctx.rule("cache", "cached attributes are created under their lock, tested again inside it and published complete, as in the reviewed definitions")
    ctx.rule("schedule", "background jobs are started, skipped and cancelled as in the reviewed definitions")
    ctx.rule("lock", "shared cache state is written only while holding the lock, after testing for it again inside the lock, in one store of the finished value")
    python(ctx, "cache", {"utils.decorators": "*"}, 25)
    python(ctx, "schedule", {"utils.schedule_": "*", "data.updater": "*"}, 12)
    locked_publication(ctx, "lock")
