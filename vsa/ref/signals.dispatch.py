"""Reviewed reference definitions of vectorbt.signals.dispatch (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from vectorbt import _typing as tp
from vectorbt._engine import array_shape_compatible_with_rust, array_compatible_with_rust, exact_array_compatible_with_rust, prepare_array_for_rust, prepare_flex_array_for_rust, flex_array_compatible_with_rust, callback_unsupported_with_rust, combine_rust_support, matching_shape_compatible_with_rust, non_neg_array_compatible_with_rust, resolve_engine, resolve_random_engine, seed_for_rust
from vectorbt.signals.dispatch import generate, generate_ex, generate_enex, clean_enex_1d, clean_enex, generate_rand, generate_rand_by_prob, generate_rand_ex, generate_rand_ex_by_prob, generate_rand_enex, rand_enex_apply, generate_rand_enex_by_prob, generate_stop_ex, generate_stop_enex, generate_ohlc_stop_ex, rand_apply, rand_ex_apply, generate_ohlc_stop_enex, rand_by_prob_apply, rand_ex_by_prob_apply, rand_enex_by_prob_apply, rand_chain_by_prob_apply, stop_ex_apply, stop_enex_apply, ohlc_stop_ex_apply, ohlc_stop_enex_apply, between_ranges, between_two_ranges, partition_ranges, between_partition_ranges, rank, _rank_support, sig_pos_rank, part_pos_rank, nth_index_1d, nth_index, norm_avg_index_1d, norm_avg_index


def generate__ref(shape, pick_first, choice_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.signals.nb import generate_nb
    return generate_nb(shape, pick_first, choice_func, *args)


def generate_ex__ref(entries, wait, until_next, skip_until_exit, pick_first, exit_choice_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.signals.nb import generate_ex_nb
    return generate_ex_nb(entries, wait, until_next, skip_until_exit, pick_first, exit_choice_func, *args)


def generate_enex__ref(shape, entry_wait, exit_wait, entry_pick_first, exit_pick_first, entry_choice_func, entry_args, exit_choice_func, exit_args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.signals.nb import generate_enex_nb
    return generate_enex_nb(shape, entry_wait, exit_wait, entry_pick_first, exit_pick_first, entry_choice_func, entry_args, exit_choice_func, exit_args)


def clean_enex_1d__ref(entries, exits, entry_first, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(entries, dtype=np.bool_), array_compatible_with_rust(exits, dtype=np.bool_), matching_shape_compatible_with_rust('exits', entries, exits)))
    if eng == 'rust':
        from vectorbt_rust.signals import clean_enex_1d_rs
        entries = prepare_array_for_rust(entries, dtype=np.bool_)
        exits = prepare_array_for_rust(exits, dtype=np.bool_)
        return clean_enex_1d_rs(entries, exits, entry_first)
    from vectorbt.signals.nb import clean_enex_1d_nb
    return clean_enex_1d_nb(entries, exits, entry_first)


def clean_enex__ref(entries, exits, entry_first, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(entries, dtype=np.bool_), array_compatible_with_rust(exits, dtype=np.bool_), matching_shape_compatible_with_rust('exits', entries, exits)))
    if eng == 'rust':
        from vectorbt_rust.signals import clean_enex_rs
        entries = prepare_array_for_rust(entries, dtype=np.bool_)
        exits = prepare_array_for_rust(exits, dtype=np.bool_)
        return clean_enex_rs(entries, exits, entry_first)
    from vectorbt.signals.nb import clean_enex_nb
    return clean_enex_nb(entries, exits, entry_first)


def generate_rand__ref(shape, n, seed=None, engine=None):
    eng = resolve_random_engine(engine)
    if eng == 'numba':
        from vectorbt.signals.nb import generate_rand_nb
        return generate_rand_nb(shape, n, seed=seed)
    eng = resolve_engine(engine, supports_rust=combine_rust_support(non_neg_array_compatible_with_rust('n', n), array_shape_compatible_with_rust('n', n, (shape[1],))))
    if eng == 'rust':
        from vectorbt_rust.signals import generate_rand_rs
        n = prepare_array_for_rust(n, dtype=np.int64)
        return generate_rand_rs(shape[0], shape[1], n, seed=seed)
    from vectorbt.signals.nb import generate_rand_nb
    return generate_rand_nb(shape, n, seed=seed)


def generate_rand_by_prob__ref(shape, prob, pick_first, flex_2d, seed=None, engine=None):
    eng = resolve_random_engine(engine)
    if eng == 'numba':
        from vectorbt.signals.nb import generate_rand_by_prob_nb
        return generate_rand_by_prob_nb(shape, prob, pick_first, flex_2d, seed=seed)
    eng = resolve_engine(engine, supports_rust=combine_rust_support(flex_array_compatible_with_rust('prob', prob, shape, np.float64, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.signals import generate_rand_by_prob_rs
        prob = prepare_flex_array_for_rust(prob, shape, np.float64, flex_2d, name='prob')
        return generate_rand_by_prob_rs(shape[0], shape[1], prob, pick_first, flex_2d=flex_2d, seed=seed)
    from vectorbt.signals.nb import generate_rand_by_prob_nb
    return generate_rand_by_prob_nb(shape, prob, pick_first, flex_2d, seed=seed)


def generate_rand_ex__ref(entries, wait, until_next, skip_until_exit, seed=None, engine=None):
    eng = resolve_random_engine(engine)
    if eng == 'numba':
        from vectorbt.signals.nb import generate_rand_ex_nb
        return generate_rand_ex_nb(entries, wait, until_next, skip_until_exit, seed=seed)
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(entries, dtype=np.bool_))
    if eng == 'rust':
        from vectorbt_rust.signals import generate_rand_ex_rs
        entries = prepare_array_for_rust(entries, dtype=np.bool_)
        return generate_rand_ex_rs(entries, wait, until_next, skip_until_exit, seed=seed)
    from vectorbt.signals.nb import generate_rand_ex_nb
    return generate_rand_ex_nb(entries, wait, until_next, skip_until_exit, seed=seed)


def generate_rand_ex_by_prob__ref(entries, prob, wait, until_next, skip_until_exit, flex_2d, seed=None, engine=None):
    eng = resolve_random_engine(engine)
    if eng == 'numba':
        from vectorbt.signals.nb import generate_rand_ex_by_prob_nb
        return generate_rand_ex_by_prob_nb(entries, prob, wait, until_next, skip_until_exit, flex_2d, seed=seed)
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(entries, dtype=np.bool_), flex_array_compatible_with_rust('prob', prob, entries.shape, np.float64, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.signals import generate_rand_ex_by_prob_rs
        entries = prepare_array_for_rust(entries, dtype=np.bool_)
        prob = prepare_flex_array_for_rust(prob, entries.shape, np.float64, flex_2d, name='prob')
        return generate_rand_ex_by_prob_rs(entries, prob, wait, until_next, skip_until_exit, flex_2d=flex_2d, seed=seed)
    from vectorbt.signals.nb import generate_rand_ex_by_prob_nb
    return generate_rand_ex_by_prob_nb(entries, prob, wait, until_next, skip_until_exit, flex_2d, seed=seed)


def generate_rand_enex__ref(shape, n, entry_wait, exit_wait, seed=None, engine=None):
    eng = resolve_random_engine(engine)
    if eng == 'numba':
        from vectorbt.signals.nb import generate_rand_enex_nb
        return generate_rand_enex_nb(shape, n, entry_wait, exit_wait, seed=seed)
    eng = resolve_engine(engine, supports_rust=combine_rust_support(non_neg_array_compatible_with_rust('n', n), array_shape_compatible_with_rust('n', n, (shape[1],))))
    if eng == 'rust':
        from vectorbt_rust.signals import generate_rand_enex_rs
        n = prepare_array_for_rust(n, dtype=np.int64)
        return generate_rand_enex_rs(shape[0], shape[1], n, entry_wait, exit_wait, seed=seed)
    from vectorbt.signals.nb import generate_rand_enex_nb
    return generate_rand_enex_nb(shape, n, entry_wait, exit_wait, seed=seed)


def rand_enex_apply__ref(input_shape, n, entry_wait=1, exit_wait=1, seed=None, engine=None):
    engine = resolve_random_engine(engine)
    n = np.broadcast_to(np.asarray(n, dtype=np.int64), input_shape[1])
    return generate_rand_enex(input_shape, n, entry_wait, exit_wait, seed=seed_for_rust(seed, engine, non_neg_array_compatible_with_rust('n', n)), engine=engine)


def generate_rand_enex_by_prob__ref(shape, entry_prob, exit_prob, entry_wait, exit_wait, entry_pick_first, exit_pick_first, flex_2d, seed=None, engine=None):
    eng = resolve_random_engine(engine)
    if eng == 'numba':
        from vectorbt.signals.nb import generate_rand_enex_by_prob_nb
        return generate_rand_enex_by_prob_nb(shape, entry_prob, exit_prob, entry_wait, exit_wait, entry_pick_first, exit_pick_first, flex_2d, seed=seed)
    eng = resolve_engine(engine, supports_rust=combine_rust_support(flex_array_compatible_with_rust('entry_prob', entry_prob, shape, np.float64, flex_2d), flex_array_compatible_with_rust('exit_prob', exit_prob, shape, np.float64, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.signals import generate_rand_enex_by_prob_rs
        entry_prob = prepare_flex_array_for_rust(entry_prob, shape, np.float64, flex_2d, name='entry_prob')
        exit_prob = prepare_flex_array_for_rust(exit_prob, shape, np.float64, flex_2d, name='exit_prob')
        return generate_rand_enex_by_prob_rs(shape[0], shape[1], entry_prob, exit_prob, entry_wait, exit_wait, entry_pick_first, exit_pick_first, flex_2d=flex_2d, seed=seed)
    from vectorbt.signals.nb import generate_rand_enex_by_prob_nb
    return generate_rand_enex_by_prob_nb(shape, entry_prob, exit_prob, entry_wait, exit_wait, entry_pick_first, exit_pick_first, flex_2d, seed=seed)


def generate_stop_ex__ref(entries, ts, stop, trailing, wait, until_next, skip_until_exit, pick_first, flex_2d, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(entries, dtype=np.bool_), array_compatible_with_rust(ts, dtype=np.float64), matching_shape_compatible_with_rust('ts', entries, ts), flex_array_compatible_with_rust('stop', stop, entries.shape, np.float64, flex_2d), flex_array_compatible_with_rust('trailing', trailing, entries.shape, np.bool_, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.signals import generate_stop_ex_rs
        entries = prepare_array_for_rust(entries, dtype=np.bool_)
        ts = prepare_array_for_rust(ts, dtype=np.float64)
        stop = prepare_flex_array_for_rust(stop, entries.shape, np.float64, flex_2d, name='stop')
        trailing = prepare_flex_array_for_rust(trailing, entries.shape, np.bool_, flex_2d, name='trailing')
        return generate_stop_ex_rs(entries, ts, stop, trailing, wait, until_next, skip_until_exit, pick_first, flex_2d=flex_2d)
    from vectorbt.signals.nb import generate_stop_ex_nb
    return generate_stop_ex_nb(entries, ts, stop, trailing, wait, until_next, skip_until_exit, pick_first, flex_2d)


def generate_stop_enex__ref(entries, ts, stop, trailing, entry_wait, exit_wait, pick_first, flex_2d, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(entries, dtype=np.bool_), array_compatible_with_rust(ts, dtype=np.float64), matching_shape_compatible_with_rust('ts', entries, ts), flex_array_compatible_with_rust('stop', stop, entries.shape, np.float64, flex_2d), flex_array_compatible_with_rust('trailing', trailing, entries.shape, np.bool_, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.signals import generate_stop_enex_rs
        entries = prepare_array_for_rust(entries, dtype=np.bool_)
        ts = prepare_array_for_rust(ts, dtype=np.float64)
        stop = prepare_flex_array_for_rust(stop, entries.shape, np.float64, flex_2d, name='stop')
        trailing = prepare_flex_array_for_rust(trailing, entries.shape, np.bool_, flex_2d, name='trailing')
        return generate_stop_enex_rs(entries, ts, stop, trailing, entry_wait, exit_wait, pick_first, flex_2d=flex_2d)
    from vectorbt.signals.nb import generate_stop_enex_nb
    return generate_stop_enex_nb(entries, ts, stop, trailing, entry_wait, exit_wait, pick_first, flex_2d)


def generate_ohlc_stop_ex__ref(entries, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, wait, until_next, skip_until_exit, pick_first, flex_2d, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(entries, dtype=np.bool_), array_compatible_with_rust(open, dtype=np.float64), array_compatible_with_rust(high, dtype=np.float64), array_compatible_with_rust(low, dtype=np.float64), array_compatible_with_rust(close, dtype=np.float64), exact_array_compatible_with_rust(stop_price_out, dtype=np.float64), exact_array_compatible_with_rust(stop_type_out, dtype=np.int64), matching_shape_compatible_with_rust('open', entries, open), matching_shape_compatible_with_rust('high', entries, high), matching_shape_compatible_with_rust('low', entries, low), matching_shape_compatible_with_rust('close', entries, close), matching_shape_compatible_with_rust('stop_price_out', entries, stop_price_out), matching_shape_compatible_with_rust('stop_type_out', entries, stop_type_out), flex_array_compatible_with_rust('sl_stop', sl_stop, entries.shape, np.float64, flex_2d), flex_array_compatible_with_rust('sl_trail', sl_trail, entries.shape, np.bool_, flex_2d), flex_array_compatible_with_rust('tp_stop', tp_stop, entries.shape, np.float64, flex_2d), flex_array_compatible_with_rust('reverse', reverse, entries.shape, np.bool_, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.signals import generate_ohlc_stop_ex_rs
        entries = prepare_array_for_rust(entries, dtype=np.bool_)
        open = prepare_array_for_rust(open, dtype=np.float64)
        high = prepare_array_for_rust(high, dtype=np.float64)
        low = prepare_array_for_rust(low, dtype=np.float64)
        close = prepare_array_for_rust(close, dtype=np.float64)
        sl_stop = prepare_flex_array_for_rust(sl_stop, entries.shape, np.float64, flex_2d, name='sl_stop')
        sl_trail = prepare_flex_array_for_rust(sl_trail, entries.shape, np.bool_, flex_2d, name='sl_trail')
        tp_stop = prepare_flex_array_for_rust(tp_stop, entries.shape, np.float64, flex_2d, name='tp_stop')
        reverse = prepare_flex_array_for_rust(reverse, entries.shape, np.bool_, flex_2d, name='reverse')
        return generate_ohlc_stop_ex_rs(entries, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, wait, until_next, skip_until_exit, pick_first, flex_2d=flex_2d)
    from vectorbt.signals.nb import generate_ohlc_stop_ex_nb
    return generate_ohlc_stop_ex_nb(entries, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, wait, until_next, skip_until_exit, pick_first, flex_2d)


def rand_apply__ref(input_shape, n, seed=None, engine=None):
    engine = resolve_random_engine(engine)
    n = np.broadcast_to(np.asarray(n, dtype=np.int64), input_shape[1])
    return generate_rand(input_shape, n, seed=seed_for_rust(seed, engine, non_neg_array_compatible_with_rust('n', n)), engine=engine)


def rand_ex_apply__ref(entries, wait=1, until_next=True, skip_until_exit=False, seed=None, engine=None):
    engine = resolve_random_engine(engine)
    return generate_rand_ex(entries, wait, until_next, skip_until_exit, seed=seed_for_rust(seed, engine, array_compatible_with_rust(entries, dtype=np.bool_)), engine=engine)


def generate_ohlc_stop_enex__ref(entries, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, entry_wait, exit_wait, pick_first, flex_2d, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(entries, dtype=np.bool_), array_compatible_with_rust(open, dtype=np.float64), array_compatible_with_rust(high, dtype=np.float64), array_compatible_with_rust(low, dtype=np.float64), array_compatible_with_rust(close, dtype=np.float64), exact_array_compatible_with_rust(stop_price_out, dtype=np.float64), exact_array_compatible_with_rust(stop_type_out, dtype=np.int64), matching_shape_compatible_with_rust('open', entries, open), matching_shape_compatible_with_rust('high', entries, high), matching_shape_compatible_with_rust('low', entries, low), matching_shape_compatible_with_rust('close', entries, close), matching_shape_compatible_with_rust('stop_price_out', entries, stop_price_out), matching_shape_compatible_with_rust('stop_type_out', entries, stop_type_out), flex_array_compatible_with_rust('sl_stop', sl_stop, entries.shape, np.float64, flex_2d), flex_array_compatible_with_rust('sl_trail', sl_trail, entries.shape, np.bool_, flex_2d), flex_array_compatible_with_rust('tp_stop', tp_stop, entries.shape, np.float64, flex_2d), flex_array_compatible_with_rust('reverse', reverse, entries.shape, np.bool_, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.signals import generate_ohlc_stop_enex_rs
        entries = prepare_array_for_rust(entries, dtype=np.bool_)
        open = prepare_array_for_rust(open, dtype=np.float64)
        high = prepare_array_for_rust(high, dtype=np.float64)
        low = prepare_array_for_rust(low, dtype=np.float64)
        close = prepare_array_for_rust(close, dtype=np.float64)
        sl_stop = prepare_flex_array_for_rust(sl_stop, entries.shape, np.float64, flex_2d, name='sl_stop')
        sl_trail = prepare_flex_array_for_rust(sl_trail, entries.shape, np.bool_, flex_2d, name='sl_trail')
        tp_stop = prepare_flex_array_for_rust(tp_stop, entries.shape, np.float64, flex_2d, name='tp_stop')
        reverse = prepare_flex_array_for_rust(reverse, entries.shape, np.bool_, flex_2d, name='reverse')
        return generate_ohlc_stop_enex_rs(entries, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, entry_wait, exit_wait, pick_first, flex_2d=flex_2d)
    from vectorbt.signals.nb import generate_ohlc_stop_enex_nb
    return generate_ohlc_stop_enex_nb(entries, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, entry_wait, exit_wait, pick_first, flex_2d)


def rand_by_prob_apply__ref(input_shape, prob, flex_2d, pick_first=False, seed=None, engine=None):
    engine = resolve_random_engine(engine)
    return generate_rand_by_prob(input_shape, prob, pick_first, flex_2d, seed=seed_for_rust(seed, engine, flex_array_compatible_with_rust('prob', prob, input_shape, np.float64, flex_2d)), engine=engine)


def rand_ex_by_prob_apply__ref(entries, prob, flex_2d, wait=1, until_next=True, skip_until_exit=False, seed=None, engine=None):
    engine = resolve_random_engine(engine)
    return generate_rand_ex_by_prob(entries, prob, wait, until_next, skip_until_exit, flex_2d, seed=seed_for_rust(seed, engine, combine_rust_support(array_compatible_with_rust(entries, dtype=np.bool_), flex_array_compatible_with_rust('prob', prob, entries.shape, np.float64, flex_2d))), engine=engine)


def rand_enex_by_prob_apply__ref(input_shape, entry_prob, exit_prob, flex_2d, entry_wait=1, exit_wait=1, entry_pick_first=True, exit_pick_first=True, seed=None, engine=None):
    engine = resolve_random_engine(engine)
    return generate_rand_enex_by_prob(input_shape, entry_prob, exit_prob, entry_wait, exit_wait, entry_pick_first, exit_pick_first, flex_2d, seed=seed_for_rust(seed, engine, combine_rust_support(flex_array_compatible_with_rust('entry_prob', entry_prob, input_shape, np.float64, flex_2d), flex_array_compatible_with_rust('exit_prob', exit_prob, input_shape, np.float64, flex_2d))), engine=engine)


def rand_chain_by_prob_apply__ref(entries, prob, flex_2d, wait=1, entry_wait=1, exit_wait=None, entry_pick_first=True, exit_pick_first=True, until_next=True, skip_until_exit=False, seed=None, engine=None):
    engine = resolve_random_engine(engine)
    if exit_wait is None:
        exit_wait = wait
    if resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(entries.astype(np.float64), dtype=np.float64), flex_array_compatible_with_rust('prob', prob, entries.shape, np.float64, flex_2d))) == 'numba':
        from vectorbt.signals.nb import first_choice_nb, rand_by_prob_choice_nb
        temp_idx_arr = np.empty((entries.shape[0],), dtype=np.int64)
        return generate_enex(entries.shape, entry_wait, exit_wait, entry_pick_first, exit_pick_first, first_choice_nb, (entries,), rand_by_prob_choice_nb, (prob, exit_pick_first, temp_idx_arr, flex_2d), engine=engine)
    entry_prob = entries.astype(np.float64)
    return generate_rand_enex_by_prob(entries.shape, entry_prob, prob, entry_wait, exit_wait, entry_pick_first, exit_pick_first, flex_2d, seed=seed_for_rust(seed, engine, combine_rust_support(array_compatible_with_rust(entry_prob, dtype=np.float64), flex_array_compatible_with_rust('prob', prob, entries.shape, np.float64, flex_2d))), engine=engine)


def stop_ex_apply__ref(entries, ts, stop, trailing, flex_2d, wait=1, until_next=True, skip_until_exit=False, pick_first=True, engine=None):
    ts = np.asarray(ts, dtype=np.float64)
    return generate_stop_ex(entries, ts, stop, trailing, wait, until_next, skip_until_exit, pick_first, flex_2d, engine=engine)


def stop_enex_apply__ref(entries, ts, stop, trailing, flex_2d, wait=1, entry_wait=1, exit_wait=None, pick_first=True, until_next=True, skip_until_exit=False, engine=None):
    if exit_wait is None:
        exit_wait = wait
    ts = np.asarray(ts, dtype=np.float64)
    return generate_stop_enex(entries, ts, stop, trailing, entry_wait, exit_wait, pick_first, flex_2d, engine=engine)


def ohlc_stop_ex_apply__ref(entries, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, flex_2d, is_open_safe=True, wait=1, until_next=True, skip_until_exit=False, pick_first=True, engine=None):
    open = np.asarray(open, dtype=np.float64)
    high = np.asarray(high, dtype=np.float64)
    low = np.asarray(low, dtype=np.float64)
    close = np.asarray(close, dtype=np.float64)
    return generate_ohlc_stop_ex(entries, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, wait, until_next, skip_until_exit, pick_first, flex_2d, engine=engine)


def ohlc_stop_enex_apply__ref(entries, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, flex_2d, is_open_safe=True, wait=1, entry_wait=1, exit_wait=None, pick_first=True, until_next=True, skip_until_exit=False, engine=None):
    if exit_wait is None:
        exit_wait = wait
    open = np.asarray(open, dtype=np.float64)
    high = np.asarray(high, dtype=np.float64)
    low = np.asarray(low, dtype=np.float64)
    close = np.asarray(close, dtype=np.float64)
    return generate_ohlc_stop_enex(entries, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, entry_wait, exit_wait, pick_first, flex_2d, engine=engine)


def between_ranges__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a, dtype=np.bool_))
    if eng == 'rust':
        from vectorbt_rust.signals import between_ranges_rs
        a = prepare_array_for_rust(a, dtype=np.bool_)
        return between_ranges_rs(a)
    from vectorbt.signals.nb import between_ranges_nb
    return between_ranges_nb(a)


def between_two_ranges__ref(a, b, from_other=False, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a, dtype=np.bool_), array_compatible_with_rust(b, dtype=np.bool_), matching_shape_compatible_with_rust('b', a, b)))
    if eng == 'rust':
        from vectorbt_rust.signals import between_two_ranges_rs
        a = prepare_array_for_rust(a, dtype=np.bool_)
        b = prepare_array_for_rust(b, dtype=np.bool_)
        return between_two_ranges_rs(a, b, from_other=from_other)
    from vectorbt.signals.nb import between_two_ranges_nb
    return between_two_ranges_nb(a, b, from_other=from_other)


def partition_ranges__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a, dtype=np.bool_))
    if eng == 'rust':
        from vectorbt_rust.signals import partition_ranges_rs
        a = prepare_array_for_rust(a, dtype=np.bool_)
        return partition_ranges_rs(a)
    from vectorbt.signals.nb import partition_ranges_nb
    return partition_ranges_nb(a)


def between_partition_ranges__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a, dtype=np.bool_))
    if eng == 'rust':
        from vectorbt_rust.signals import between_partition_ranges_rs
        a = prepare_array_for_rust(a, dtype=np.bool_)
        return between_partition_ranges_rs(a)
    from vectorbt.signals.nb import between_partition_ranges_nb
    return between_partition_ranges_nb(a)


def rank__ref(a, reset_by, after_false, rank_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.signals.nb import rank_nb
    return rank_nb(a, reset_by, after_false, rank_func, *args)


def _rank_support__ref(a, reset_by):
    if reset_by is None:
        return array_compatible_with_rust(a, dtype=np.bool_)
    return combine_rust_support(array_compatible_with_rust(a, dtype=np.bool_), array_compatible_with_rust(reset_by, dtype=np.bool_), matching_shape_compatible_with_rust('reset_by', a, reset_by))


def sig_pos_rank__ref(a, reset_by, after_false, allow_gaps, engine=None):
    eng = resolve_engine(engine, supports_rust=_rank_support(a, reset_by))
    if eng == 'rust':
        from vectorbt_rust.signals import sig_pos_rank_rs
        a = prepare_array_for_rust(a, dtype=np.bool_)
        if reset_by is not None:
            reset_by = prepare_array_for_rust(reset_by, dtype=np.bool_)
        return sig_pos_rank_rs(a, reset_by, after_false, allow_gaps)
    from vectorbt.signals.nb import rank_nb, sig_pos_rank_nb
    sig_pos_temp = np.full(a.shape[1], -1, dtype=np.int64)
    return rank_nb(a, reset_by, after_false, sig_pos_rank_nb, sig_pos_temp, allow_gaps)


def part_pos_rank__ref(a, reset_by, after_false, engine=None):
    eng = resolve_engine(engine, supports_rust=_rank_support(a, reset_by))
    if eng == 'rust':
        from vectorbt_rust.signals import part_pos_rank_rs
        a = prepare_array_for_rust(a, dtype=np.bool_)
        if reset_by is not None:
            reset_by = prepare_array_for_rust(reset_by, dtype=np.bool_)
        return part_pos_rank_rs(a, reset_by, after_false)
    from vectorbt.signals.nb import rank_nb, part_pos_rank_nb
    part_pos_temp = np.full(a.shape[1], -1, dtype=np.int64)
    return rank_nb(a, reset_by, after_false, part_pos_rank_nb, part_pos_temp)


def nth_index_1d__ref(a, n, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a, dtype=np.bool_))
    if eng == 'rust':
        from vectorbt_rust.signals import nth_index_1d_rs
        a = prepare_array_for_rust(a, dtype=np.bool_)
        return nth_index_1d_rs(a, n)
    from vectorbt.signals.nb import nth_index_1d_nb
    return nth_index_1d_nb(a, n)


def nth_index__ref(a, n, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a, dtype=np.bool_))
    if eng == 'rust':
        from vectorbt_rust.signals import nth_index_rs
        a = prepare_array_for_rust(a, dtype=np.bool_)
        return nth_index_rs(a, n)
    from vectorbt.signals.nb import nth_index_nb
    return nth_index_nb(a, n)


def norm_avg_index_1d__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a, dtype=np.bool_))
    if eng == 'rust':
        from vectorbt_rust.signals import norm_avg_index_1d_rs
        a = prepare_array_for_rust(a, dtype=np.bool_)
        return norm_avg_index_1d_rs(a)
    from vectorbt.signals.nb import norm_avg_index_1d_nb
    return norm_avg_index_1d_nb(a)


def norm_avg_index__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a, dtype=np.bool_))
    if eng == 'rust':
        from vectorbt_rust.signals import norm_avg_index_rs
        a = prepare_array_for_rust(a, dtype=np.bool_)
        return norm_avg_index_rs(a)
    from vectorbt.signals.nb import norm_avg_index_nb
    return norm_avg_index_nb(a)
