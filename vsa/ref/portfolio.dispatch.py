"""Reviewed reference definitions of vectorbt.portfolio.dispatch (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from vectorbt import _typing as tp
from vectorbt._engine import RustSupport, array_compatible_with_rust, exact_array_compatible_with_rust, prepare_array_for_rust, prepare_flex_array_for_rust, col_map_compatible_with_rust, combine_rust_support, flex_array_compatible_with_rust, resolve_engine, resolve_random_engine
from vectorbt.portfolio.enums import order_dt, trade_dt
from vectorbt.records.dispatch import record_array_compatible_with_rust
from vectorbt.utils.random_ import set_seed_nb
from vectorbt.portfolio.dispatch import order_record_array_compatible_with_rust, trade_record_array_compatible_with_rust, order_not_filled, buy, sell, execute_order, raise_rejected_order, update_value, order, close_position, order_nothing, check_group_lens, check_group_init_cash, is_grouped, shuffle_call_seq, build_call_seq, get_group_value, approx_order_value, simulate_from_orders, simulate_from_signals, get_trade_stats, get_entry_trades, get_exit_trades, trade_winning_streak, trade_losing_streak, get_positions, get_long_size, get_short_size, asset_flow, assets, get_free_cash_diff, cash_flow, sum_grouped, cash_flow_grouped, init_cash_grouped, init_cash, cash, cash_in_sim_order, cash_grouped, asset_value, asset_value_grouped, value_in_sim_order, value, total_profit, total_profit_grouped, final_value, total_return, returns_in_sim_order, asset_returns, benchmark_value, benchmark_value_grouped, total_benchmark_return, gross_exposure


def order_record_array_compatible_with_rust__ref(records):
    support = record_array_compatible_with_rust(records)
    if not support.supported:
        return support
    if records.dtype != order_dt:
        return RustSupport(False, 'Rust engine requires order records to have `order_dt` dtype.')
    return RustSupport(True)


def trade_record_array_compatible_with_rust__ref(records):
    support = record_array_compatible_with_rust(records)
    if not support.supported:
        return support
    if records.dtype != trade_dt:
        return RustSupport(False, 'Rust engine requires trade records to have `trade_dt` dtype.')
    return RustSupport(True)


def order_not_filled__ref(status, status_info, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import order_not_filled_rs
        return order_not_filled_rs(status, status_info)
    from vectorbt.portfolio.nb import order_not_filled_nb
    return order_not_filled_nb(status, status_info)


def buy__ref(exec_state, size, price, direction=2, fees=0.0, fixed_fees=0.0, slippage=0.0, min_size=0.0, max_size=np.inf, size_granularity=np.nan, lock_cash=False, allow_partial=True, percent=np.nan, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import buy_rs
        return buy_rs(exec_state, size, price, direction, fees, fixed_fees, slippage, min_size, max_size, size_granularity, lock_cash, allow_partial, percent)
    from vectorbt.portfolio.nb import buy_nb
    return buy_nb(exec_state, size, price, direction, fees, fixed_fees, slippage, min_size, max_size, size_granularity, lock_cash, allow_partial, percent)


def sell__ref(exec_state, size, price, direction=2, fees=0.0, fixed_fees=0.0, slippage=0.0, min_size=0.0, max_size=np.inf, size_granularity=np.nan, lock_cash=False, allow_partial=True, percent=np.nan, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import sell_rs
        return sell_rs(exec_state, size, price, direction, fees, fixed_fees, slippage, min_size, max_size, size_granularity, lock_cash, allow_partial, percent)
    from vectorbt.portfolio.nb import sell_nb
    return sell_nb(exec_state, size, price, direction, fees, fixed_fees, slippage, min_size, max_size, size_granularity, lock_cash, allow_partial, percent)


def execute_order__ref(state, order, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import execute_order_rs
        return execute_order_rs(state, order)
    from vectorbt.portfolio.nb import execute_order_nb
    return execute_order_nb(state, order)


def raise_rejected_order__ref(order_result, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import OrderResult as RustOrderResult, raise_rejected_order_rs
        if not isinstance(order_result, RustOrderResult):
            order_result = RustOrderResult(order_result.size, order_result.price, order_result.fees, order_result.side, order_result.status, order_result.status_info)
        return raise_rejected_order_rs(order_result)
    from vectorbt.portfolio.nb import raise_rejected_order_nb
    return raise_rejected_order_nb(order_result)


def update_value__ref(cash_before, cash_now, position_before, position_now, val_price_before, order_price, value_before, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import update_value_rs
        return update_value_rs(cash_before, cash_now, position_before, position_now, val_price_before, order_price, value_before)
    from vectorbt.portfolio.nb import update_value_nb
    return update_value_nb(cash_before, cash_now, position_before, position_now, val_price_before, order_price, value_before)


def order__ref(size=np.nan, price=np.inf, size_type=0, direction=2, fees=0.0, fixed_fees=0.0, slippage=0.0, min_size=0.0, max_size=np.inf, size_granularity=np.nan, reject_prob=0.0, lock_cash=False, allow_partial=True, raise_reject=False, log=False, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import order_rs
        return order_rs(size, price, size_type, direction, fees, fixed_fees, slippage, min_size, max_size, size_granularity, reject_prob, lock_cash, allow_partial, raise_reject, log)
    from vectorbt.portfolio.nb import order_nb as order_nb_func
    return order_nb_func(size, price, size_type, direction, fees, fixed_fees, slippage, min_size, max_size, size_granularity, reject_prob, lock_cash, allow_partial, raise_reject, log)


def close_position__ref(price=np.inf, fees=0.0, fixed_fees=0.0, slippage=0.0, min_size=0.0, max_size=np.inf, size_granularity=np.nan, reject_prob=0.0, lock_cash=False, allow_partial=True, raise_reject=False, log=False, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import close_position_rs
        return close_position_rs(price, fees, fixed_fees, slippage, min_size, max_size, size_granularity, reject_prob, lock_cash, allow_partial, raise_reject, log)
    from vectorbt.portfolio.nb import close_position_nb
    return close_position_nb(price, fees, fixed_fees, slippage, min_size, max_size, size_granularity, reject_prob, lock_cash, allow_partial, raise_reject, log)


def order_nothing__ref(engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import order_nothing_rs
        return order_nothing_rs()
    from vectorbt.portfolio.nb import order_nothing_nb
    return order_nothing_nb()


def check_group_lens__ref(group_lens, n_cols, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(group_lens, dtype=np.int64))
    if eng == 'rust':
        from vectorbt_rust.portfolio import check_group_lens_rs
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return check_group_lens_rs(group_lens, n_cols)
    from vectorbt.portfolio.nb import check_group_lens_nb
    return check_group_lens_nb(group_lens, n_cols)


def check_group_init_cash__ref(group_lens, n_cols, init_cash, cash_sharing, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(group_lens, dtype=np.int64), array_compatible_with_rust(init_cash)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import check_group_init_cash_rs
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        init_cash = prepare_array_for_rust(init_cash, dtype=np.float64)
        return check_group_init_cash_rs(group_lens, n_cols, init_cash, cash_sharing)
    from vectorbt.portfolio.nb import check_group_init_cash_nb
    return check_group_init_cash_nb(group_lens, n_cols, init_cash, cash_sharing)


def is_grouped__ref(group_lens, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(group_lens, dtype=np.int64))
    if eng == 'rust':
        from vectorbt_rust.portfolio import is_grouped_rs
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return is_grouped_rs(group_lens)
    from vectorbt.portfolio.nb import is_grouped_nb
    return is_grouped_nb(group_lens)


def shuffle_call_seq__ref(call_seq, group_lens, seed=None, engine=None):
    eng = resolve_random_engine(engine)
    if eng == 'numba':
        from vectorbt.portfolio.nb import shuffle_call_seq_nb
        if seed is not None:
            set_seed_nb(seed)
        return shuffle_call_seq_nb(call_seq, group_lens)
    eng = resolve_engine(engine, supports_rust=combine_rust_support(exact_array_compatible_with_rust(call_seq, dtype=np.int64), array_compatible_with_rust(group_lens, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import shuffle_call_seq_rs
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return shuffle_call_seq_rs(call_seq, group_lens, seed)
    from vectorbt.portfolio.nb import shuffle_call_seq_nb
    if seed is not None:
        set_seed_nb(seed)
    return shuffle_call_seq_nb(call_seq, group_lens)


def build_call_seq__ref(target_shape, group_lens, call_seq_type=0, engine=None):
    if call_seq_type == 2:
        eng = resolve_random_engine(engine)
        if eng == 'numba':
            from vectorbt.portfolio.nb import build_call_seq_nb
            return build_call_seq_nb(target_shape, group_lens, call_seq_type)
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(group_lens, dtype=np.int64))
    if eng == 'rust':
        from vectorbt_rust.portfolio import build_call_seq_rs
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return build_call_seq_rs(target_shape, group_lens, call_seq_type)
    from vectorbt.portfolio.nb import build_call_seq_nb
    return build_call_seq_nb(target_shape, group_lens, call_seq_type)


def get_group_value__ref(from_col, to_col, cash_now, last_position, last_val_price, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(last_position), array_compatible_with_rust(last_val_price)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import get_group_value_rs
        last_position = prepare_array_for_rust(last_position, dtype=np.float64)
        last_val_price = prepare_array_for_rust(last_val_price, dtype=np.float64)
        return get_group_value_rs(from_col, to_col, cash_now, last_position, last_val_price)
    from vectorbt.portfolio.nb import get_group_value_nb
    return get_group_value_nb(from_col, to_col, cash_now, last_position, last_val_price)


def approx_order_value__ref(size, size_type, direction, cash_now, position, free_cash, val_price, value, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import approx_order_value_rs
        return approx_order_value_rs(size, size_type, direction, cash_now, position, free_cash, val_price, value)
    from vectorbt.portfolio.nb import approx_order_value_nb
    return approx_order_value_nb(size, size_type, direction, cash_now, position, free_cash, val_price, value)


def simulate_from_orders__ref(target_shape, group_lens, init_cash, call_seq, size=np.asarray(np.inf), price=np.asarray(np.inf), size_type=np.asarray(0), direction=np.asarray(2), fees=np.asarray(0.0), fixed_fees=np.asarray(0.0), slippage=np.asarray(0.0), min_size=np.asarray(0.0), max_size=np.asarray(np.inf), size_granularity=np.asarray(np.nan), reject_prob=np.asarray(0.0), lock_cash=np.asarray(False), allow_partial=np.asarray(True), raise_reject=np.asarray(False), log=np.asarray(False), val_price=np.asarray(np.inf), close=np.asarray(np.nan), auto_call_seq=False, ffill_val_price=True, update_value=False, max_orders=None, max_logs=0, init_temp_records=False, flex_2d=True, seed=None, engine=None):
    if np.any(np.asarray(reject_prob) > 0):
        eng = resolve_random_engine(engine)
        if eng == 'numba':
            from vectorbt.portfolio.nb import simulate_from_orders_nb
            if seed is not None:
                set_seed_nb(seed)
            return simulate_from_orders_nb(target_shape, group_lens, init_cash, call_seq, size, price, size_type, direction, fees, fixed_fees, slippage, min_size, max_size, size_granularity, reject_prob, lock_cash, allow_partial, raise_reject, log, val_price, close, auto_call_seq=auto_call_seq, ffill_val_price=ffill_val_price, update_value=update_value, max_orders=max_orders, max_logs=max_logs, init_temp_records=init_temp_records, flex_2d=flex_2d)
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(group_lens, dtype=np.int64), array_compatible_with_rust(init_cash), exact_array_compatible_with_rust(call_seq, dtype=np.int64), flex_array_compatible_with_rust('size', size, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('price', price, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('size_type', size_type, target_shape, np.int64, flex_2d), flex_array_compatible_with_rust('direction', direction, target_shape, np.int64, flex_2d), flex_array_compatible_with_rust('fees', fees, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('fixed_fees', fixed_fees, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('slippage', slippage, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('min_size', min_size, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('max_size', max_size, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('size_granularity', size_granularity, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('reject_prob', reject_prob, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('lock_cash', lock_cash, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('allow_partial', allow_partial, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('raise_reject', raise_reject, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('log', log, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('val_price', val_price, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('close', close, target_shape, np.float64, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import simulate_from_orders_rs
        size_arr = prepare_flex_array_for_rust(size, target_shape, np.float64, flex_2d, name='size')
        price_arr = prepare_flex_array_for_rust(price, target_shape, np.float64, flex_2d, name='price')
        size_type_arr = prepare_flex_array_for_rust(size_type, target_shape, np.int64, flex_2d, name='size_type')
        direction_arr = prepare_flex_array_for_rust(direction, target_shape, np.int64, flex_2d, name='direction')
        fees_arr = prepare_flex_array_for_rust(fees, target_shape, np.float64, flex_2d, name='fees')
        fixed_fees_arr = prepare_flex_array_for_rust(fixed_fees, target_shape, np.float64, flex_2d, name='fixed_fees')
        slippage_arr = prepare_flex_array_for_rust(slippage, target_shape, np.float64, flex_2d, name='slippage')
        min_size_arr = prepare_flex_array_for_rust(min_size, target_shape, np.float64, flex_2d, name='min_size')
        max_size_arr = prepare_flex_array_for_rust(max_size, target_shape, np.float64, flex_2d, name='max_size')
        size_granularity_arr = prepare_flex_array_for_rust(size_granularity, target_shape, np.float64, flex_2d, name='size_granularity')
        reject_prob_arr = prepare_flex_array_for_rust(reject_prob, target_shape, np.float64, flex_2d, name='reject_prob')
        lock_cash_arr = prepare_flex_array_for_rust(lock_cash, target_shape, np.bool_, flex_2d, name='lock_cash')
        allow_partial_arr = prepare_flex_array_for_rust(allow_partial, target_shape, np.bool_, flex_2d, name='allow_partial')
        raise_reject_arr = prepare_flex_array_for_rust(raise_reject, target_shape, np.bool_, flex_2d, name='raise_reject')
        log_arr = prepare_flex_array_for_rust(log, target_shape, np.bool_, flex_2d, name='log')
        val_price_arr = prepare_flex_array_for_rust(val_price, target_shape, np.float64, flex_2d, name='val_price')
        close_arr = prepare_flex_array_for_rust(close, target_shape, np.float64, flex_2d, name='close')
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        init_cash = prepare_array_for_rust(init_cash, dtype=np.float64)
        return simulate_from_orders_rs(target_shape, group_lens, init_cash, call_seq, size_arr, price_arr, size_type_arr, direction_arr, fees_arr, fixed_fees_arr, slippage_arr, min_size_arr, max_size_arr, size_granularity_arr, reject_prob_arr, lock_cash_arr, allow_partial_arr, raise_reject_arr, log_arr, val_price_arr, close_arr, auto_call_seq=auto_call_seq, ffill_val_price=ffill_val_price, update_value=update_value, max_orders=max_orders, max_logs=max_logs, init_temp_records=init_temp_records, seed=seed, flex_2d=flex_2d)
    from vectorbt.portfolio.nb import simulate_from_orders_nb
    return simulate_from_orders_nb(target_shape, group_lens, init_cash, call_seq, size, price, size_type, direction, fees, fixed_fees, slippage, min_size, max_size, size_granularity, reject_prob, lock_cash, allow_partial, raise_reject, log, val_price, close, auto_call_seq=auto_call_seq, ffill_val_price=ffill_val_price, update_value=update_value, max_orders=max_orders, max_logs=max_logs, init_temp_records=init_temp_records, flex_2d=flex_2d)


def simulate_from_signals__ref(target_shape, group_lens, init_cash, call_seq, entries=np.asarray(False), exits=np.asarray(False), direction=np.asarray(0), long_entries=np.asarray(False), long_exits=np.asarray(False), short_entries=np.asarray(False), short_exits=np.asarray(False), size=np.asarray(np.inf), price=np.asarray(np.inf), size_type=np.asarray(0), fees=np.asarray(0.0), fixed_fees=np.asarray(0.0), slippage=np.asarray(0.0), min_size=np.asarray(0.0), max_size=np.asarray(np.inf), size_granularity=np.asarray(np.nan), reject_prob=np.asarray(0.0), lock_cash=np.asarray(False), allow_partial=np.asarray(True), raise_reject=np.asarray(False), log=np.asarray(False), accumulate=np.asarray(0), upon_long_conflict=np.asarray(0), upon_short_conflict=np.asarray(0), upon_dir_conflict=np.asarray(0), upon_opposite_entry=np.asarray(4), val_price=np.asarray(np.inf), open=np.asarray(np.nan), high=np.asarray(np.nan), low=np.asarray(np.nan), close=np.asarray(np.nan), sl_stop=np.asarray(np.nan), sl_trail=np.asarray(False), tp_stop=np.asarray(np.nan), stop_entry_price=np.asarray(3), stop_exit_price=np.asarray(0), upon_stop_exit=np.asarray(0), upon_stop_update=np.asarray(1), use_stops=True, auto_call_seq=False, ffill_val_price=True, update_value=False, max_orders=None, max_logs=0, init_temp_records=False, flex_2d=True, seed=None, engine=None):
    if np.any(np.asarray(reject_prob) > 0):
        eng = resolve_random_engine(engine)
        if eng == 'numba':
            from vectorbt.portfolio.nb import simulate_from_signals_nb
            if seed is not None:
                set_seed_nb(seed)
            return simulate_from_signals_nb(target_shape, group_lens, init_cash, call_seq, entries, exits, direction, long_entries, long_exits, short_entries, short_exits, size, price, size_type, fees, fixed_fees, slippage, min_size, max_size, size_granularity, reject_prob, lock_cash, allow_partial, raise_reject, log, accumulate, upon_long_conflict, upon_short_conflict, upon_dir_conflict, upon_opposite_entry, val_price, open, high, low, close, sl_stop, sl_trail, tp_stop, stop_entry_price, stop_exit_price, upon_stop_exit, upon_stop_update, use_stops=use_stops, auto_call_seq=auto_call_seq, ffill_val_price=ffill_val_price, update_value=update_value, max_orders=max_orders, max_logs=max_logs, init_temp_records=init_temp_records, flex_2d=flex_2d)
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(group_lens, dtype=np.int64), array_compatible_with_rust(init_cash), exact_array_compatible_with_rust(call_seq, dtype=np.int64), flex_array_compatible_with_rust('entries', entries, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('exits', exits, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('direction', direction, target_shape, np.int64, flex_2d), flex_array_compatible_with_rust('long_entries', long_entries, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('long_exits', long_exits, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('short_entries', short_entries, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('short_exits', short_exits, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('size', size, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('price', price, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('size_type', size_type, target_shape, np.int64, flex_2d), flex_array_compatible_with_rust('fees', fees, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('fixed_fees', fixed_fees, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('slippage', slippage, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('min_size', min_size, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('max_size', max_size, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('size_granularity', size_granularity, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('reject_prob', reject_prob, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('lock_cash', lock_cash, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('allow_partial', allow_partial, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('raise_reject', raise_reject, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('log', log, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('accumulate', accumulate, target_shape, np.int64, flex_2d), flex_array_compatible_with_rust('upon_long_conflict', upon_long_conflict, target_shape, np.int64, flex_2d), flex_array_compatible_with_rust('upon_short_conflict', upon_short_conflict, target_shape, np.int64, flex_2d), flex_array_compatible_with_rust('upon_dir_conflict', upon_dir_conflict, target_shape, np.int64, flex_2d), flex_array_compatible_with_rust('upon_opposite_entry', upon_opposite_entry, target_shape, np.int64, flex_2d), flex_array_compatible_with_rust('val_price', val_price, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('open', open, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('high', high, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('low', low, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('close', close, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('sl_stop', sl_stop, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('sl_trail', sl_trail, target_shape, np.bool_, flex_2d), flex_array_compatible_with_rust('tp_stop', tp_stop, target_shape, np.float64, flex_2d), flex_array_compatible_with_rust('stop_entry_price', stop_entry_price, target_shape, np.int64, flex_2d), flex_array_compatible_with_rust('stop_exit_price', stop_exit_price, target_shape, np.int64, flex_2d), flex_array_compatible_with_rust('upon_stop_exit', upon_stop_exit, target_shape, np.int64, flex_2d), flex_array_compatible_with_rust('upon_stop_update', upon_stop_update, target_shape, np.int64, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import simulate_from_signals_rs
        entries_arr = prepare_flex_array_for_rust(entries, target_shape, np.bool_, flex_2d, name='entries')
        exits_arr = prepare_flex_array_for_rust(exits, target_shape, np.bool_, flex_2d, name='exits')
        direction_arr = prepare_flex_array_for_rust(direction, target_shape, np.int64, flex_2d, name='direction')
        long_entries_arr = prepare_flex_array_for_rust(long_entries, target_shape, np.bool_, flex_2d, name='long_entries')
        long_exits_arr = prepare_flex_array_for_rust(long_exits, target_shape, np.bool_, flex_2d, name='long_exits')
        short_entries_arr = prepare_flex_array_for_rust(short_entries, target_shape, np.bool_, flex_2d, name='short_entries')
        short_exits_arr = prepare_flex_array_for_rust(short_exits, target_shape, np.bool_, flex_2d, name='short_exits')
        size_arr = prepare_flex_array_for_rust(size, target_shape, np.float64, flex_2d, name='size')
        price_arr = prepare_flex_array_for_rust(price, target_shape, np.float64, flex_2d, name='price')
        size_type_arr = prepare_flex_array_for_rust(size_type, target_shape, np.int64, flex_2d, name='size_type')
        fees_arr = prepare_flex_array_for_rust(fees, target_shape, np.float64, flex_2d, name='fees')
        fixed_fees_arr = prepare_flex_array_for_rust(fixed_fees, target_shape, np.float64, flex_2d, name='fixed_fees')
        slippage_arr = prepare_flex_array_for_rust(slippage, target_shape, np.float64, flex_2d, name='slippage')
        min_size_arr = prepare_flex_array_for_rust(min_size, target_shape, np.float64, flex_2d, name='min_size')
        max_size_arr = prepare_flex_array_for_rust(max_size, target_shape, np.float64, flex_2d, name='max_size')
        size_granularity_arr = prepare_flex_array_for_rust(size_granularity, target_shape, np.float64, flex_2d, name='size_granularity')
        reject_prob_arr = prepare_flex_array_for_rust(reject_prob, target_shape, np.float64, flex_2d, name='reject_prob')
        lock_cash_arr = prepare_flex_array_for_rust(lock_cash, target_shape, np.bool_, flex_2d, name='lock_cash')
        allow_partial_arr = prepare_flex_array_for_rust(allow_partial, target_shape, np.bool_, flex_2d, name='allow_partial')
        raise_reject_arr = prepare_flex_array_for_rust(raise_reject, target_shape, np.bool_, flex_2d, name='raise_reject')
        log_arr = prepare_flex_array_for_rust(log, target_shape, np.bool_, flex_2d, name='log')
        accumulate_arr = prepare_flex_array_for_rust(accumulate, target_shape, np.int64, flex_2d, name='accumulate')
        upon_long_conflict_arr = prepare_flex_array_for_rust(upon_long_conflict, target_shape, np.int64, flex_2d, name='upon_long_conflict')
        upon_short_conflict_arr = prepare_flex_array_for_rust(upon_short_conflict, target_shape, np.int64, flex_2d, name='upon_short_conflict')
        upon_dir_conflict_arr = prepare_flex_array_for_rust(upon_dir_conflict, target_shape, np.int64, flex_2d, name='upon_dir_conflict')
        upon_opposite_entry_arr = prepare_flex_array_for_rust(upon_opposite_entry, target_shape, np.int64, flex_2d, name='upon_opposite_entry')
        val_price_arr = prepare_flex_array_for_rust(val_price, target_shape, np.float64, flex_2d, name='val_price')
        open_arr = prepare_flex_array_for_rust(open, target_shape, np.float64, flex_2d, name='open')
        high_arr = prepare_flex_array_for_rust(high, target_shape, np.float64, flex_2d, name='high')
        low_arr = prepare_flex_array_for_rust(low, target_shape, np.float64, flex_2d, name='low')
        close_arr = prepare_flex_array_for_rust(close, target_shape, np.float64, flex_2d, name='close')
        sl_stop_arr = prepare_flex_array_for_rust(sl_stop, target_shape, np.float64, flex_2d, name='sl_stop')
        sl_trail_arr = prepare_flex_array_for_rust(sl_trail, target_shape, np.bool_, flex_2d, name='sl_trail')
        tp_stop_arr = prepare_flex_array_for_rust(tp_stop, target_shape, np.float64, flex_2d, name='tp_stop')
        stop_entry_price_arr = prepare_flex_array_for_rust(stop_entry_price, target_shape, np.int64, flex_2d, name='stop_entry_price')
        stop_exit_price_arr = prepare_flex_array_for_rust(stop_exit_price, target_shape, np.int64, flex_2d, name='stop_exit_price')
        upon_stop_exit_arr = prepare_flex_array_for_rust(upon_stop_exit, target_shape, np.int64, flex_2d, name='upon_stop_exit')
        upon_stop_update_arr = prepare_flex_array_for_rust(upon_stop_update, target_shape, np.int64, flex_2d, name='upon_stop_update')
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        init_cash = prepare_array_for_rust(init_cash, dtype=np.float64)
        return simulate_from_signals_rs(target_shape, group_lens, init_cash, call_seq, entries_arr, exits_arr, direction_arr, long_entries_arr, long_exits_arr, short_entries_arr, short_exits_arr, size_arr, price_arr, size_type_arr, fees_arr, fixed_fees_arr, slippage_arr, min_size_arr, max_size_arr, size_granularity_arr, reject_prob_arr, lock_cash_arr, allow_partial_arr, raise_reject_arr, log_arr, accumulate_arr, upon_long_conflict_arr, upon_short_conflict_arr, upon_dir_conflict_arr, upon_opposite_entry_arr, val_price_arr, open_arr, high_arr, low_arr, close_arr, sl_stop_arr, sl_trail_arr, tp_stop_arr, stop_entry_price_arr, stop_exit_price_arr, upon_stop_exit_arr, upon_stop_update_arr, use_stops=use_stops, auto_call_seq=auto_call_seq, ffill_val_price=ffill_val_price, update_value=update_value, max_orders=max_orders, max_logs=max_logs, init_temp_records=init_temp_records, seed=seed, flex_2d=flex_2d)
    from vectorbt.portfolio.nb import simulate_from_signals_nb
    return simulate_from_signals_nb(target_shape, group_lens, init_cash, call_seq, entries, exits, direction, long_entries, long_exits, short_entries, short_exits, size, price, size_type, fees, fixed_fees, slippage, min_size, max_size, size_granularity, reject_prob, lock_cash, allow_partial, raise_reject, log, accumulate, upon_long_conflict, upon_short_conflict, upon_dir_conflict, upon_opposite_entry, val_price, open, high, low, close, sl_stop, sl_trail, tp_stop, stop_entry_price, stop_exit_price, upon_stop_exit, upon_stop_update, use_stops=use_stops, auto_call_seq=auto_call_seq, ffill_val_price=ffill_val_price, update_value=update_value, max_orders=max_orders, max_logs=max_logs, init_temp_records=init_temp_records, flex_2d=flex_2d)


def get_trade_stats__ref(size, entry_price, entry_fees, exit_price, exit_fees, direction, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import get_trade_stats_rs
        return get_trade_stats_rs(size, entry_price, entry_fees, exit_price, exit_fees, direction)
    from vectorbt.portfolio.nb import get_trade_stats_nb
    return get_trade_stats_nb(size, entry_price, entry_fees, exit_price, exit_fees, direction)


def get_entry_trades__ref(order_records, close, col_map, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(order_record_array_compatible_with_rust(order_records), array_compatible_with_rust(close), col_map_compatible_with_rust(col_map)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import get_entry_trades_rs
        col_idxs, col_lens = col_map
        close = prepare_array_for_rust(close, dtype=np.float64)
        col_idxs = prepare_array_for_rust(col_idxs, dtype=np.int64)
        col_lens = prepare_array_for_rust(col_lens, dtype=np.int64)
        return get_entry_trades_rs(order_records, close, col_idxs, col_lens)
    from vectorbt.portfolio.nb import get_entry_trades_nb
    return get_entry_trades_nb(order_records, close, col_map)


def get_exit_trades__ref(order_records, close, col_map, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(order_record_array_compatible_with_rust(order_records), array_compatible_with_rust(close), col_map_compatible_with_rust(col_map)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import get_exit_trades_rs
        col_idxs, col_lens = col_map
        close = prepare_array_for_rust(close, dtype=np.float64)
        col_idxs = prepare_array_for_rust(col_idxs, dtype=np.int64)
        col_lens = prepare_array_for_rust(col_lens, dtype=np.int64)
        return get_exit_trades_rs(order_records, close, col_idxs, col_lens)
    from vectorbt.portfolio.nb import get_exit_trades_nb
    return get_exit_trades_nb(order_records, close, col_map)


def trade_winning_streak__ref(records, engine=None):
    eng = resolve_engine(engine, supports_rust=trade_record_array_compatible_with_rust(records))
    if eng == 'rust':
        from vectorbt_rust.portfolio import trade_winning_streak_rs
        return trade_winning_streak_rs(records)
    from vectorbt.portfolio.nb import trade_winning_streak_nb
    return trade_winning_streak_nb(records)


def trade_losing_streak__ref(records, engine=None):
    eng = resolve_engine(engine, supports_rust=trade_record_array_compatible_with_rust(records))
    if eng == 'rust':
        from vectorbt_rust.portfolio import trade_losing_streak_rs
        return trade_losing_streak_rs(records)
    from vectorbt.portfolio.nb import trade_losing_streak_nb
    return trade_losing_streak_nb(records)


def get_positions__ref(trade_records, col_map, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(trade_record_array_compatible_with_rust(trade_records), col_map_compatible_with_rust(col_map)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import get_positions_rs
        col_idxs, col_lens = col_map
        col_idxs = prepare_array_for_rust(col_idxs, dtype=np.int64)
        col_lens = prepare_array_for_rust(col_lens, dtype=np.int64)
        return get_positions_rs(trade_records, col_idxs, col_lens)
    from vectorbt.portfolio.nb import get_positions_nb
    return get_positions_nb(trade_records, col_map)


def get_long_size__ref(position_before, position_now, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import get_long_size_rs
        return get_long_size_rs(position_before, position_now)
    from vectorbt.portfolio.nb import get_long_size_nb
    return get_long_size_nb(position_before, position_now)


def get_short_size__ref(position_before, position_now, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import get_short_size_rs
        return get_short_size_rs(position_before, position_now)
    from vectorbt.portfolio.nb import get_short_size_nb
    return get_short_size_nb(position_before, position_now)


def asset_flow__ref(target_shape, order_records, col_map, direction, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(order_record_array_compatible_with_rust(order_records), col_map_compatible_with_rust(col_map)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import asset_flow_rs
        col_idxs, col_lens = col_map
        col_idxs = prepare_array_for_rust(col_idxs, dtype=np.int64)
        col_lens = prepare_array_for_rust(col_lens, dtype=np.int64)
        return asset_flow_rs(order_records, col_idxs, col_lens, target_shape, direction)
    from vectorbt.portfolio.nb import asset_flow_nb
    return asset_flow_nb(target_shape, order_records, col_map, direction)


def assets__ref(asset_flow, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(asset_flow))
    if eng == 'rust':
        from vectorbt_rust.portfolio import assets_rs
        asset_flow = prepare_array_for_rust(asset_flow, dtype=np.float64)
        return assets_rs(asset_flow)
    from vectorbt.portfolio.nb import assets_nb
    return assets_nb(asset_flow)


def get_free_cash_diff__ref(position_before, position_now, debt_now, price, fees, engine=None):
    eng = resolve_engine(engine, supports_rust=RustSupport(True))
    if eng == 'rust':
        from vectorbt_rust.portfolio import get_free_cash_diff_rs
        return get_free_cash_diff_rs(position_before, position_now, debt_now, price, fees)
    from vectorbt.portfolio.nb import get_free_cash_diff_nb
    return get_free_cash_diff_nb(position_before, position_now, debt_now, price, fees)


def cash_flow__ref(target_shape, order_records, col_map, free, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(order_record_array_compatible_with_rust(order_records), col_map_compatible_with_rust(col_map)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import cash_flow_rs
        col_idxs, col_lens = col_map
        col_idxs = prepare_array_for_rust(col_idxs, dtype=np.int64)
        col_lens = prepare_array_for_rust(col_lens, dtype=np.int64)
        return cash_flow_rs(order_records, col_idxs, col_lens, target_shape, free)
    from vectorbt.portfolio.nb import cash_flow_nb
    return cash_flow_nb(target_shape, order_records, col_map, free)


def sum_grouped__ref(a, group_lens, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), array_compatible_with_rust(group_lens, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import sum_grouped_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return sum_grouped_rs(a, group_lens)
    from vectorbt.portfolio.nb import sum_grouped_nb
    return sum_grouped_nb(a, group_lens)


def cash_flow_grouped__ref(cash_flow, group_lens, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(cash_flow), array_compatible_with_rust(group_lens, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import cash_flow_grouped_rs
        cash_flow = prepare_array_for_rust(cash_flow, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return cash_flow_grouped_rs(cash_flow, group_lens)
    from vectorbt.portfolio.nb import cash_flow_grouped_nb
    return cash_flow_grouped_nb(cash_flow, group_lens)


def init_cash_grouped__ref(init_cash, group_lens, cash_sharing, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(init_cash), array_compatible_with_rust(group_lens, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import init_cash_grouped_rs
        init_cash = prepare_array_for_rust(init_cash, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return init_cash_grouped_rs(init_cash, group_lens, cash_sharing)
    from vectorbt.portfolio.nb import init_cash_grouped_nb
    return init_cash_grouped_nb(init_cash, group_lens, cash_sharing)


def init_cash__ref(init_cash, group_lens, cash_sharing, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(init_cash), array_compatible_with_rust(group_lens, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import init_cash_rs
        init_cash = prepare_array_for_rust(init_cash, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return init_cash_rs(init_cash, group_lens, cash_sharing)
    from vectorbt.portfolio.nb import init_cash_nb
    return init_cash_nb(init_cash, group_lens, cash_sharing)


def cash__ref(cash_flow, init_cash, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(cash_flow), array_compatible_with_rust(init_cash)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import cash_rs
        cash_flow = prepare_array_for_rust(cash_flow, dtype=np.float64)
        init_cash = prepare_array_for_rust(init_cash, dtype=np.float64)
        return cash_rs(cash_flow, init_cash)
    from vectorbt.portfolio.nb import cash_nb
    return cash_nb(cash_flow, init_cash)


def cash_in_sim_order__ref(cash_flow, group_lens, init_cash_grouped, call_seq, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(cash_flow), array_compatible_with_rust(group_lens, dtype=np.int64), array_compatible_with_rust(init_cash_grouped), array_compatible_with_rust(call_seq, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import cash_in_sim_order_rs
        cash_flow = prepare_array_for_rust(cash_flow, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        init_cash_grouped = prepare_array_for_rust(init_cash_grouped, dtype=np.float64)
        call_seq = prepare_array_for_rust(call_seq, dtype=np.int64)
        return cash_in_sim_order_rs(cash_flow, group_lens, init_cash_grouped, call_seq)
    from vectorbt.portfolio.nb import cash_in_sim_order_nb
    return cash_in_sim_order_nb(cash_flow, group_lens, init_cash_grouped, call_seq)


def cash_grouped__ref(target_shape, cash_flow_grouped, group_lens, init_cash_grouped, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(cash_flow_grouped), array_compatible_with_rust(group_lens, dtype=np.int64), array_compatible_with_rust(init_cash_grouped)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import cash_grouped_rs
        cash_flow_grouped = prepare_array_for_rust(cash_flow_grouped, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        init_cash_grouped = prepare_array_for_rust(init_cash_grouped, dtype=np.float64)
        return cash_grouped_rs(target_shape, cash_flow_grouped, group_lens, init_cash_grouped)
    from vectorbt.portfolio.nb import cash_grouped_nb
    return cash_grouped_nb(target_shape, cash_flow_grouped, group_lens, init_cash_grouped)


def asset_value__ref(close, assets, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close), array_compatible_with_rust(assets)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import asset_value_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        assets = prepare_array_for_rust(assets, dtype=np.float64)
        return asset_value_rs(close, assets)
    from vectorbt.portfolio.nb import asset_value_nb
    return asset_value_nb(close, assets)


def asset_value_grouped__ref(asset_value, group_lens, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(asset_value), array_compatible_with_rust(group_lens, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import asset_value_grouped_rs
        asset_value = prepare_array_for_rust(asset_value, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return asset_value_grouped_rs(asset_value, group_lens)
    from vectorbt.portfolio.nb import asset_value_grouped_nb
    return asset_value_grouped_nb(asset_value, group_lens)


def value_in_sim_order__ref(cash, asset_value, group_lens, call_seq, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(cash), array_compatible_with_rust(asset_value), array_compatible_with_rust(group_lens, dtype=np.int64), array_compatible_with_rust(call_seq, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import value_in_sim_order_rs
        cash = prepare_array_for_rust(cash, dtype=np.float64)
        asset_value = prepare_array_for_rust(asset_value, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        call_seq = prepare_array_for_rust(call_seq, dtype=np.int64)
        return value_in_sim_order_rs(cash, asset_value, group_lens, call_seq)
    from vectorbt.portfolio.nb import value_in_sim_order_nb
    return value_in_sim_order_nb(cash, asset_value, group_lens, call_seq)


def value__ref(cash, asset_value, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(cash), array_compatible_with_rust(asset_value)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import value_rs
        cash = prepare_array_for_rust(cash, dtype=np.float64)
        asset_value = prepare_array_for_rust(asset_value, dtype=np.float64)
        return value_rs(cash, asset_value)
    from vectorbt.portfolio.nb import value_nb
    return value_nb(cash, asset_value)


def total_profit__ref(target_shape, close, order_records, col_map, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(order_record_array_compatible_with_rust(order_records), col_map_compatible_with_rust(col_map), array_compatible_with_rust(close)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import total_profit_rs
        col_idxs, col_lens = col_map
        close = prepare_array_for_rust(close, dtype=np.float64)
        col_idxs = prepare_array_for_rust(col_idxs, dtype=np.int64)
        col_lens = prepare_array_for_rust(col_lens, dtype=np.int64)
        return total_profit_rs(target_shape, close, order_records, col_idxs, col_lens)
    from vectorbt.portfolio.nb import total_profit_nb
    return total_profit_nb(target_shape, close, order_records, col_map)


def total_profit_grouped__ref(total_profit, group_lens, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(total_profit), array_compatible_with_rust(group_lens, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import total_profit_grouped_rs
        total_profit = prepare_array_for_rust(total_profit, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return total_profit_grouped_rs(total_profit, group_lens)
    from vectorbt.portfolio.nb import total_profit_grouped_nb
    return total_profit_grouped_nb(total_profit, group_lens)


def final_value__ref(total_profit, init_cash, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(total_profit), array_compatible_with_rust(init_cash)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import final_value_rs
        total_profit = prepare_array_for_rust(total_profit, dtype=np.float64)
        init_cash = prepare_array_for_rust(init_cash, dtype=np.float64)
        return final_value_rs(total_profit, init_cash)
    from vectorbt.portfolio.nb import final_value_nb
    return final_value_nb(total_profit, init_cash)


def total_return__ref(total_profit, init_cash, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(total_profit), array_compatible_with_rust(init_cash)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import total_return_rs
        total_profit = prepare_array_for_rust(total_profit, dtype=np.float64)
        init_cash = prepare_array_for_rust(init_cash, dtype=np.float64)
        return total_return_rs(total_profit, init_cash)
    from vectorbt.portfolio.nb import total_return_nb
    return total_return_nb(total_profit, init_cash)


def returns_in_sim_order__ref(value_iso, group_lens, init_cash_grouped, call_seq, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(value_iso), array_compatible_with_rust(group_lens, dtype=np.int64), array_compatible_with_rust(init_cash_grouped), array_compatible_with_rust(call_seq, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import returns_in_sim_order_rs
        value_iso = prepare_array_for_rust(value_iso, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        init_cash_grouped = prepare_array_for_rust(init_cash_grouped, dtype=np.float64)
        call_seq = prepare_array_for_rust(call_seq, dtype=np.int64)
        return returns_in_sim_order_rs(value_iso, group_lens, init_cash_grouped, call_seq)
    from vectorbt.portfolio.nb import returns_in_sim_order_nb
    return returns_in_sim_order_nb(value_iso, group_lens, init_cash_grouped, call_seq)


def asset_returns__ref(cash_flow, asset_value, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(cash_flow), array_compatible_with_rust(asset_value)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import asset_returns_rs
        cash_flow = prepare_array_for_rust(cash_flow, dtype=np.float64)
        asset_value = prepare_array_for_rust(asset_value, dtype=np.float64)
        return asset_returns_rs(cash_flow, asset_value)
    from vectorbt.portfolio.nb import asset_returns_nb
    return asset_returns_nb(cash_flow, asset_value)


def benchmark_value__ref(close, init_cash, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close), array_compatible_with_rust(init_cash)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import benchmark_value_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        init_cash = prepare_array_for_rust(init_cash, dtype=np.float64)
        return benchmark_value_rs(close, init_cash)
    from vectorbt.portfolio.nb import benchmark_value_nb
    return benchmark_value_nb(close, init_cash)


def benchmark_value_grouped__ref(close, group_lens, init_cash_grouped, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close), array_compatible_with_rust(group_lens, dtype=np.int64), array_compatible_with_rust(init_cash_grouped)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import benchmark_value_grouped_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        init_cash_grouped = prepare_array_for_rust(init_cash_grouped, dtype=np.float64)
        return benchmark_value_grouped_rs(close, group_lens, init_cash_grouped)
    from vectorbt.portfolio.nb import benchmark_value_grouped_nb
    return benchmark_value_grouped_nb(close, group_lens, init_cash_grouped)


def total_benchmark_return__ref(benchmark_value, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(benchmark_value))
    if eng == 'rust':
        from vectorbt_rust.portfolio import total_benchmark_return_rs
        benchmark_value = prepare_array_for_rust(benchmark_value, dtype=np.float64)
        return total_benchmark_return_rs(benchmark_value)
    from vectorbt.portfolio.nb import total_benchmark_return_nb
    return total_benchmark_return_nb(benchmark_value)


def gross_exposure__ref(asset_value, cash, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(asset_value), array_compatible_with_rust(cash)))
    if eng == 'rust':
        from vectorbt_rust.portfolio import gross_exposure_rs
        asset_value = prepare_array_for_rust(asset_value, dtype=np.float64)
        cash = prepare_array_for_rust(cash, dtype=np.float64)
        return gross_exposure_rs(asset_value, cash)
    from vectorbt.portfolio.nb import gross_exposure_nb
    return gross_exposure_nb(asset_value, cash)
