"""Comparison of the simulators with the reference simulators (shared by several checks; not a check itself)."""
from ..gated import C, P, spec_module
from ..kernel import check_spec
from ..spec import simulators
from .common import NB

NAMES = ("simulate_from_orders_nb", "simulate_from_signals_nb", "simulate_from_signal_func_nb", "simulate_nb",
         "simulate_row_wise_nb", "flex_simulate_nb", "flex_simulate_row_wise_nb")
OPAQUE = ("process_order_nb", "flex_select_auto_nb", "init_records_nb", "check_group_lens_nb", "check_group_init_cash_nb", "is_grouped_nb",
          "insert_argsort_nb", "generate_stop_signal_nb", "resolve_signal_conflict_nb", "resolve_dir_conflict_nb", "resolve_opposite_entry_nb",
          "signals_to_size_nb", "get_stop_price_nb", "should_update_stop_nb", "resolve_stop_price_and_slippage_nb", "order_nb", "get_group_value_nb",
          "update_pos_record_nb", "update_open_pos_stats_nb", "init_last_pos_record_nb", "approx_order_value_nb", "get_return_nb", "replace_inf_price_nb")


def load(prog):
    return spec_module(prog, "simulators", simulators.text({n: prog.require(NB + n).param_names for n in NAMES}))


def cases(prog, name):
    return [{"use_stops": C(True)}, {"use_stops": C(False)}] if "use_stops" in prog.require(NB + name).param_names else [{}]


def check_simulator(ctx, rule, prog, spec, name, aspect=None, only=None):
    fi = prog.require(NB + name)
    sf = spec.functions[name]
    for c in only if only is not None else cases(prog, name):
        check_spec(ctx, rule, prog, fi, sf, opaque=OPAQUE, limit=8000, args={n: c.get(n, P(n)) for n in fi.param_names}, aspect=aspect)
