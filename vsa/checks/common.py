"""Helpers shared by the checks."""
import os

from ..gated import spec_module

NB = "vectorbt.portfolio.nb."


def load_spec(prog, name):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", name + ".py")
    return spec_module(prog, name, open(path).read())


def prog_enum(prog, name):
    from ..program import Assign
    from ..gated import GFlow
    e = prog.require("vectorbt.portfolio.enums." + name)
    r = GFlow(prog).enum_of(e) if isinstance(e, Assign) else None
    from ..program import AnalysisError
    if not r:
        raise AnalysisError(f"enum {name} not found")
    return r


def _st():
    from ..flow import State
    return State()
