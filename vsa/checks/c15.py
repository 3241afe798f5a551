"""C15: signal and stop resolution.

The resolution functions are reduced to gated terms and compared, for every member of the mode enums they take and one
value outside of them, with reference specifications written from the documentation of the modes; the two signal
simulators are compared with a reference simulator (see spec/simulators.py), which fixes where each mode is applied,
the order of resolution, the price a stop is measured from and when stops are updated or dropped.
"""
from ..gated import C, P
from ..kernel import check_spec
from .common import NB, load_spec, prog_enum
from .simulators import check_simulator, load
from .scope import python

TECHNIQUE = "gated value numbering and recurrence extraction, compared case by case with reference mode semantics"
LEVEL_NOTE = ("Holds for every input in exact arithmetic; order execution, call-sequence sorting and array element selection are opaque here "
              "(C08, C09, C20, C14). Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["Real arithmetic; positions within the library's closeness tolerance of zero count as zero."]

UNITS = {
    "generate_stop_signal_nb": [("upon_stop_exit", "StopExitMode"), ("accumulate", "AccumulationMode")],
    "resolve_stop_price_and_slippage_nb": [("stop_exit_price", "StopExitPrice")],
    "resolve_signal_conflict_nb": [("conflict_mode", "ConflictMode"), ("direction", "Direction")],
    "resolve_dir_conflict_nb": [("upon_dir_conflict", "DirectionConflictMode")],
    "resolve_opposite_entry_nb": [("upon_opposite_entry", "OppositeEntryMode")],
    "signals_to_size_nb": [("size_type", "SizeType"), ("accumulate", "AccumulationMode")],
    "should_update_stop_nb": [("upon_stop_update", "StopUpdateMode")],
    "get_stop_price_nb": [],
    "no_signal_func_nb": [], "no_adjust_sl_func_nb": [], "no_adjust_tp_func_nb": [],
    "dir_enex_signal_func_nb": [], "ls_enex_signal_func_nb": [],
}


def run(ctx):
    prog = ctx.prog
    ctx.rule("reviewed", "the portfolio constructors hand signals, modes and stop options to the simulators as reviewed")
    ctx.rule("mode", "each conflict, stop, accumulation and direction mode resolves the signals, stop price and order size as documented for it")
    ctx.rule("simulator", "the signal simulators apply each mode at its place: stop before user signals, conflicts before direction conflicts before opposite entries, stops set on entry, kept or overridden on increase and dropped on close")
    spec = load_spec(prog, "c15")
    for name, modes in UNITS.items():
        fi = prog.require(NB + name)
        cases = [{}]
        for par, enum in modes:
            vals = prog_enum(prog, enum)
            cases = [{**c, par: v} for c in cases for v in vals.values()]
        for case in cases:
            args = {n: (C(case[n]) if n in case else P(n)) for n in fi.param_names}
            if any(p not in fi.param_names for p in case):
                ctx.unknown(fi.loc(), f"{name}: no parameter {sorted(case)}")
                break
            check_spec(ctx, "mode", prog, fi, spec.functions[name], opaque=("flex_select_auto_nb",), limit=6000, args=args)
    sims = load(prog)
    for name in ("simulate_from_signals_nb", "simulate_from_signal_func_nb"):
        check_simulator(ctx, "simulator", prog, sims, name)
    ctx.at_least("mode cases", ctx.obligations["mode"], 60)
    python(ctx, "reviewed", {"portfolio.base": ["Portfolio.from_signals*", "Portfolio.from_holding*", "Portfolio.from_random_signals*", "Portfolio.from_order_func*"], "portfolio.dispatch": "*", "portfolio.enums": "*",
                              "signals.accessors": ["SignalsAccessor.clean", "SignalsAccessor.generate*"], "signals.dispatch": ["clean*", "generate*"], "signals.factory": "*", "signals.generators": "*"}, 55)
