import numpy as np
from numba import njit
from vectorbt import _typing as tp
from vectorbt.base.reshape_fns import flex_select_auto_nb
from vectorbt.generic.enums import range_dt, RangeStatus
from vectorbt.signals.enums import StopType
from vectorbt.utils.array_ import uniform_summing_to_one_nb, rescale_float_to_int_nb, renormalize_nb

def generate_nb(shape, pick_first, choice_func_nb, *args):
    out = np.full(shape, False, dtype=np.bool_)
    for col in range(out.shape[1]):
        idxs = choice_func_nb(0, shape[0], col, *args)
        if len(idxs) == 0:
            continue
        if pick_first:
            first_i = idxs[0]
            if first_i < 0 or first_i >= shape[0]:
                raise ValueError('First returned index is out of bounds')
            out[first_i, col] = True
        else:
            if np.any(idxs < 0) or np.any(idxs >= shape[0]):
                raise ValueError('Returned indices are out of bounds')
            out[idxs, col] = True
    return out

def generate_ex_nb(entries, wait, until_next, skip_until_exit, pick_first, exit_choice_func_nb, *args):
    exits = np.full_like(entries, False)
    for col in range(entries.shape[1]):
        entry_idxs = np.flatnonzero(entries[:, col])
        last_exit_i = -1
        for i in range(entry_idxs.shape[0]):
            if skip_until_exit and entry_idxs[i] <= last_exit_i:
                continue
            from_i = entry_idxs[i] + wait
            if i < entry_idxs.shape[0] - 1 and until_next:
                to_i = entry_idxs[i + 1]
            else:
                to_i = entries.shape[0]
            if to_i > from_i:
                idxs = exit_choice_func_nb(from_i, to_i, col, *args)
                if len(idxs) == 0:
                    continue
                if pick_first:
                    first_i = idxs[0]
                    if first_i < from_i or first_i >= to_i:
                        raise ValueError('First returned index is out of bounds')
                    exits[first_i, col] = True
                    last_exit_i = first_i
                else:
                    if np.any(idxs < from_i) or np.any(idxs >= to_i):
                        raise ValueError('Returned indices are out of bounds')
                    exits[idxs, col] = True
                    last_exit_i = idxs[-1]
    return exits

def generate_enex_nb(shape, entry_wait, exit_wait, entry_pick_first, exit_pick_first, entry_choice_func_nb, entry_args, exit_choice_func_nb, exit_args):
    entries = np.full(shape, False)
    exits = np.full(shape, False)
    if entry_wait == 0 and exit_wait == 0:
        raise ValueError('entry_wait and exit_wait cannot be both 0')
    for col in range(shape[1]):
        prev_prev_i = -2
        prev_i = -1
        i = 0
        while True:
            to_i = shape[0]
            if i % 2 == 0:
                if i == 0:
                    from_i = 0
                else:
                    from_i = prev_i + entry_wait
                if from_i >= to_i:
                    break
                idxs = entry_choice_func_nb(from_i, to_i, col, *entry_args)
                a = entries
                pick_first = entry_pick_first
            else:
                from_i = prev_i + exit_wait
                if from_i >= to_i:
                    break
                idxs = exit_choice_func_nb(from_i, to_i, col, *exit_args)
                a = exits
                pick_first = exit_pick_first
            if len(idxs) == 0:
                break
            first_i = idxs[0]
            if first_i == prev_i == prev_prev_i:
                raise ValueError('Infinite loop detected')
            if first_i < from_i:
                raise ValueError('First index is out of bounds')
            if pick_first:
                if first_i >= to_i:
                    raise ValueError('First index is out of bounds')
                a[first_i, col] = True
                prev_prev_i = prev_i
                prev_i = first_i
                i += 1
            else:
                last_i = idxs[-1]
                if last_i >= to_i:
                    raise ValueError('Last index is out of bounds')
                a[idxs, col] = True
                prev_prev_i = prev_i
                prev_i = last_i
                i += 1
    return (entries, exits)

def clean_enex_1d_nb(entries, exits, entry_first):
    entries_out = np.full(entries.shape, False, dtype=np.bool_)
    exits_out = np.full(exits.shape, False, dtype=np.bool_)
    phase = -1
    for i in range(entries.shape[0]):
        if entries[i] and exits[i]:
            continue
        if entries[i]:
            if phase == -1 or phase == 0:
                phase = 1
                entries_out[i] = True
        if exits[i]:
            if not entry_first and phase == -1 or phase == 1:
                phase = 0
                exits_out[i] = True
    return (entries_out, exits_out)

def clean_enex_nb(entries, exits, entry_first):
    entries_out = np.empty(entries.shape, dtype=np.bool_)
    exits_out = np.empty(exits.shape, dtype=np.bool_)
    for col in range(entries.shape[1]):
        entries_out[:, col], exits_out[:, col] = clean_enex_1d_nb(entries[:, col], exits[:, col], entry_first)
    return (entries_out, exits_out)

def rand_choice_nb(from_i, to_i, col, n):
    ns = np.asarray(n)
    size = min(to_i - from_i, flex_select_auto_nb(ns, 0, col, True))
    return from_i + np.random.choice(to_i - from_i, size=size, replace=False)

def generate_rand_nb(shape, n, seed=None):
    if seed is not None:
        np.random.seed(seed)
    return generate_nb(shape, False, rand_choice_nb, n)

def rand_by_prob_choice_nb(from_i, to_i, col, prob, pick_first, temp_idx_arr, flex_2d):
    probs = np.asarray(prob)
    j = 0
    for i in range(from_i, to_i):
        if np.random.uniform(0, 1) < flex_select_auto_nb(probs, i, col, flex_2d):
            temp_idx_arr[j] = i
            j += 1
            if pick_first:
                break
    return temp_idx_arr[:j]

def generate_rand_by_prob_nb(shape, prob, pick_first, flex_2d, seed=None):
    if seed is not None:
        np.random.seed(seed)
    temp_idx_arr = np.empty((shape[0],), dtype=np.int64)
    return generate_nb(shape, pick_first, rand_by_prob_choice_nb, prob, pick_first, temp_idx_arr, flex_2d)

def generate_rand_ex_nb(entries, wait, until_next, skip_until_exit, seed=None):
    if seed is not None:
        np.random.seed(seed)
    return generate_ex_nb(entries, wait, until_next, skip_until_exit, True, rand_choice_nb, 1)

def generate_rand_ex_by_prob_nb(entries, prob, wait, until_next, skip_until_exit, flex_2d, seed=None):
    if seed is not None:
        np.random.seed(seed)
    temp_idx_arr = np.empty((entries.shape[0],), dtype=np.int64)
    return generate_ex_nb(entries, wait, until_next, skip_until_exit, True, rand_by_prob_choice_nb, prob, True, temp_idx_arr, flex_2d)

def generate_rand_enex_nb(shape, n, entry_wait, exit_wait, seed=None):
    if seed is not None:
        np.random.seed(seed)
    entries = np.full(shape, False)
    exits = np.full(shape, False)
    if entry_wait == 0 and exit_wait == 0:
        raise ValueError('entry_wait and exit_wait cannot be both 0')
    ns = np.asarray(n)
    if entry_wait == 1 and exit_wait == 1:
        both = generate_rand_nb(shape, ns * 2, seed=None)
        for col in range(both.shape[1]):
            both_idxs = np.flatnonzero(both[:, col])
            entries[both_idxs[0::2], col] = True
            exits[both_idxs[1::2], col] = True
    else:
        for col in range(shape[1]):
            _n = flex_select_auto_nb(ns, 0, col, True)
            if _n == 1:
                entry_idx = np.random.randint(0, shape[0] - exit_wait)
                entries[entry_idx, col] = True
            else:
                min_range = entry_wait + exit_wait
                min_total_range = min_range * (_n - 1)
                if shape[0] < min_total_range + exit_wait + 1:
                    raise ValueError('Cannot take a larger sample than population')
                max_free_space = shape[0] - min_total_range - 1
                free_space = min(max_free_space, 3 * shape[0] // (_n + 1))
                free_space -= exit_wait
                rand_floats = uniform_summing_to_one_nb(6)
                chosen_spaces = rescale_float_to_int_nb(rand_floats, (0, free_space), free_space)
                first_idx = chosen_spaces[0]
                last_idx = shape[0] - np.sum(chosen_spaces[-2:]) - exit_wait - 1
                total_range = last_idx - first_idx
                max_range = total_range - (_n - 2) * min_range
                rand_floats = uniform_summing_to_one_nb(_n - 1)
                chosen_ranges = rescale_float_to_int_nb(rand_floats, (min_range, max_range), total_range)
                entry_idxs = np.empty(_n, dtype=np.int64)
                entry_idxs[0] = first_idx
                entry_idxs[1:] = chosen_ranges
                entry_idxs = np.cumsum(entry_idxs)
                entries[entry_idxs, col] = True
        for col in range(shape[1]):
            entry_idxs = np.flatnonzero(entries[:, col])
            for j in range(len(entry_idxs)):
                entry_i = entry_idxs[j] + exit_wait
                if j < len(entry_idxs) - 1:
                    exit_i = entry_idxs[j + 1] - entry_wait
                else:
                    exit_i = entries.shape[0] - 1
                i = np.random.randint(exit_i - entry_i + 1)
                exits[entry_i + i, col] = True
    return (entries, exits)

def rand_enex_apply_nb(input_shape, n, entry_wait, exit_wait):
    return generate_rand_enex_nb(input_shape, n, entry_wait, exit_wait)

def generate_rand_enex_by_prob_nb(shape, entry_prob, exit_prob, entry_wait, exit_wait, entry_pick_first, exit_pick_first, flex_2d, seed=None):
    if seed is not None:
        np.random.seed(seed)
    temp_idx_arr = np.empty((shape[0],), dtype=np.int64)
    return generate_enex_nb(shape, entry_wait, exit_wait, entry_pick_first, exit_pick_first, rand_by_prob_choice_nb, (entry_prob, entry_pick_first, temp_idx_arr, flex_2d), rand_by_prob_choice_nb, (exit_prob, exit_pick_first, temp_idx_arr, flex_2d))

def first_choice_nb(from_i, to_i, col, a):
    out = np.empty((1,), dtype=np.int64)
    for i in range(from_i, to_i):
        if a[i, col]:
            out[0] = i
            return out
    return out[:0]

def stop_choice_nb(from_i, to_i, col, ts, stop, trailing, wait, pick_first, temp_idx_arr, flex_2d):
    j = 0
    init_i = from_i - wait
    init_ts = flex_select_auto_nb(ts, init_i, col, flex_2d)
    init_stop = flex_select_auto_nb(np.asarray(stop), init_i, col, flex_2d)
    init_trailing = flex_select_auto_nb(np.asarray(trailing), init_i, col, flex_2d)
    max_high = min_low = init_ts
    for i in range(from_i, to_i):
        if not np.isnan(init_stop):
            if init_trailing:
                if init_stop >= 0:
                    curr_stop_price = min_low * (1 + abs(init_stop))
                else:
                    curr_stop_price = max_high * (1 - abs(init_stop))
            else:
                curr_stop_price = init_ts * (1 + init_stop)
        curr_ts = flex_select_auto_nb(ts, i, col, flex_2d)
        if not np.isnan(init_stop):
            if init_stop >= 0:
                exit_signal = curr_ts >= curr_stop_price
            else:
                exit_signal = curr_ts <= curr_stop_price
            if exit_signal:
                temp_idx_arr[j] = i
                j += 1
                if pick_first:
                    return temp_idx_arr[:1]
        if init_trailing:
            if curr_ts < min_low:
                min_low = curr_ts
            elif curr_ts > max_high:
                max_high = curr_ts
    return temp_idx_arr[:j]

def generate_stop_ex_nb(entries, ts, stop, trailing, wait, until_next, skip_until_exit, pick_first, flex_2d):
    temp_idx_arr = np.empty((entries.shape[0],), dtype=np.int64)
    return generate_ex_nb(entries, wait, until_next, skip_until_exit, pick_first, stop_choice_nb, ts, stop, trailing, wait, pick_first, temp_idx_arr, flex_2d)

def generate_stop_enex_nb(entries, ts, stop, trailing, entry_wait, exit_wait, pick_first, flex_2d):
    temp_idx_arr = np.empty((entries.shape[0],), dtype=np.int64)
    return generate_enex_nb(entries.shape, entry_wait, exit_wait, True, pick_first, first_choice_nb, (entries,), stop_choice_nb, (ts, stop, trailing, exit_wait, pick_first, temp_idx_arr, flex_2d))

def ohlc_stop_choice_nb(from_i, to_i, col, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, wait, pick_first, temp_idx_arr, flex_2d):
    init_i = from_i - wait
    init_open = flex_select_auto_nb(open, init_i, col, flex_2d)
    init_sl_stop = flex_select_auto_nb(np.asarray(sl_stop), init_i, col, flex_2d)
    if init_sl_stop < 0:
        raise ValueError('Stop value must be 0 or greater')
    init_sl_trail = flex_select_auto_nb(np.asarray(sl_trail), init_i, col, flex_2d)
    init_tp_stop = flex_select_auto_nb(np.asarray(tp_stop), init_i, col, flex_2d)
    if init_tp_stop < 0:
        raise ValueError('Stop value must be 0 or greater')
    init_reverse = flex_select_auto_nb(np.asarray(reverse), init_i, col, flex_2d)
    max_p = min_p = init_open
    j = 0
    for i in range(from_i, to_i):
        _open = flex_select_auto_nb(open, i, col, flex_2d)
        _high = flex_select_auto_nb(high, i, col, flex_2d)
        _low = flex_select_auto_nb(low, i, col, flex_2d)
        _close = flex_select_auto_nb(close, i, col, flex_2d)
        if np.isnan(_open):
            _open = _close
        if np.isnan(_low):
            _low = min(_open, _close)
        if np.isnan(_high):
            _high = max(_open, _close)
        if not np.isnan(init_sl_stop):
            if init_sl_trail:
                if init_reverse:
                    curr_sl_stop_price = min_p * (1 + init_sl_stop)
                else:
                    curr_sl_stop_price = max_p * (1 - init_sl_stop)
            elif init_reverse:
                curr_sl_stop_price = init_open * (1 + init_sl_stop)
            else:
                curr_sl_stop_price = init_open * (1 - init_sl_stop)
        if not np.isnan(init_tp_stop):
            if init_reverse:
                curr_tp_stop_price = init_open * (1 - init_tp_stop)
            else:
                curr_tp_stop_price = init_open * (1 + init_tp_stop)
        if i > init_i or is_open_safe:
            curr_high = _high
            curr_low = _low
        else:
            curr_high = curr_low = _close
        exit_signal = False
        if not np.isnan(init_sl_stop):
            if not init_reverse and curr_low <= curr_sl_stop_price or (init_reverse and curr_high >= curr_sl_stop_price):
                exit_signal = True
                stop_price_out[i, col] = curr_sl_stop_price
                if init_sl_trail:
                    stop_type_out[i, col] = StopType.TrailStop
                else:
                    stop_type_out[i, col] = StopType.StopLoss
        if not exit_signal and (not np.isnan(init_tp_stop)):
            if not init_reverse and curr_high >= curr_tp_stop_price or (init_reverse and curr_low <= curr_tp_stop_price):
                exit_signal = True
                stop_price_out[i, col] = curr_tp_stop_price
                stop_type_out[i, col] = StopType.TakeProfit
        if exit_signal:
            temp_idx_arr[j] = i
            j += 1
            if pick_first:
                return temp_idx_arr[:1]
        if init_sl_trail:
            if curr_low < min_p:
                min_p = curr_low
            if curr_high > max_p:
                max_p = curr_high
    return temp_idx_arr[:j]

def generate_ohlc_stop_ex_nb(entries, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, wait, until_next, skip_until_exit, pick_first, flex_2d):
    temp_idx_arr = np.empty((entries.shape[0],), dtype=np.int64)
    return generate_ex_nb(entries, wait, until_next, skip_until_exit, pick_first, ohlc_stop_choice_nb, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, wait, pick_first, temp_idx_arr, flex_2d)

def generate_ohlc_stop_enex_nb(entries, open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, entry_wait, exit_wait, pick_first, flex_2d):
    temp_idx_arr = np.empty((entries.shape[0],), dtype=np.int64)
    return generate_enex_nb(entries.shape, entry_wait, exit_wait, True, pick_first, first_choice_nb, (entries,), ohlc_stop_choice_nb, (open, high, low, close, stop_price_out, stop_type_out, sl_stop, sl_trail, tp_stop, reverse, is_open_safe, exit_wait, pick_first, temp_idx_arr, flex_2d))

def between_ranges_nb(a):
    range_records = np.empty(a.shape[0] * a.shape[1], dtype=range_dt)
    ridx = 0
    for col in range(a.shape[1]):
        a_idxs = np.flatnonzero(a[:, col])
        if a_idxs.shape[0] > 1:
            for j in range(1, a_idxs.shape[0]):
                from_i = a_idxs[j - 1]
                to_i = a_idxs[j]
                range_records[ridx]['id'] = ridx
                range_records[ridx]['col'] = col
                range_records[ridx]['start_idx'] = from_i
                range_records[ridx]['end_idx'] = to_i
                range_records[ridx]['status'] = RangeStatus.Closed
                ridx += 1
    return range_records[:ridx]

def between_two_ranges_nb(a, b, from_other=False):
    range_records = np.empty(a.shape[0] * a.shape[1], dtype=range_dt)
    ridx = 0
    for col in range(a.shape[1]):
        a_idxs = np.flatnonzero(a[:, col])
        if a_idxs.shape[0] == 0:
            continue
        b_idxs = np.flatnonzero(b[:, col])
        if b_idxs.shape[0] == 0:
            continue
        if from_other:
            a_pos = 0
            for to_i in b_idxs:
                while a_pos + 1 < a_idxs.shape[0] and a_idxs[a_pos + 1] <= to_i:
                    a_pos += 1
                if a_idxs[a_pos] <= to_i:
                    from_i = a_idxs[a_pos]
                    range_records[ridx]['id'] = ridx
                    range_records[ridx]['col'] = col
                    range_records[ridx]['start_idx'] = from_i
                    range_records[ridx]['end_idx'] = to_i
                    range_records[ridx]['status'] = RangeStatus.Closed
                    ridx += 1
        else:
            b_pos = 0
            for from_i in a_idxs:
                while b_pos < b_idxs.shape[0] and b_idxs[b_pos] < from_i:
                    b_pos += 1
                if b_pos < b_idxs.shape[0]:
                    to_i = b_idxs[b_pos]
                    range_records[ridx]['id'] = ridx
                    range_records[ridx]['col'] = col
                    range_records[ridx]['start_idx'] = from_i
                    range_records[ridx]['end_idx'] = to_i
                    range_records[ridx]['status'] = RangeStatus.Closed
                    ridx += 1
    return range_records[:ridx]

def partition_ranges_nb(a):
    range_records = np.empty(a.shape[0] * a.shape[1], dtype=range_dt)
    ridx = 0
    for col in range(a.shape[1]):
        is_partition = False
        from_i = -1
        for i in range(a.shape[0]):
            if a[i, col]:
                if not is_partition:
                    from_i = i
                is_partition = True
            elif is_partition:
                to_i = i
                range_records[ridx]['id'] = ridx
                range_records[ridx]['col'] = col
                range_records[ridx]['start_idx'] = from_i
                range_records[ridx]['end_idx'] = to_i
                range_records[ridx]['status'] = RangeStatus.Closed
                ridx += 1
                is_partition = False
            if i == a.shape[0] - 1:
                if is_partition:
                    to_i = a.shape[0] - 1
                    range_records[ridx]['id'] = ridx
                    range_records[ridx]['col'] = col
                    range_records[ridx]['start_idx'] = from_i
                    range_records[ridx]['end_idx'] = to_i
                    range_records[ridx]['status'] = RangeStatus.Open
                    ridx += 1
    return range_records[:ridx]

def between_partition_ranges_nb(a):
    range_records = np.empty(a.shape[0] * a.shape[1], dtype=range_dt)
    ridx = 0
    for col in range(a.shape[1]):
        is_partition = False
        from_i = -1
        for i in range(a.shape[0]):
            if a[i, col]:
                if not is_partition and from_i != -1:
                    to_i = i
                    range_records[ridx]['id'] = ridx
                    range_records[ridx]['col'] = col
                    range_records[ridx]['start_idx'] = from_i
                    range_records[ridx]['end_idx'] = to_i
                    range_records[ridx]['status'] = RangeStatus.Closed
                    ridx += 1
                is_partition = True
                from_i = i
            else:
                is_partition = False
    return range_records[:ridx]

def rank_nb(a, reset_by, after_false, rank_func_nb, *args):
    out = np.full(a.shape, -1, dtype=np.int64)
    for col in range(a.shape[1]):
        reset_i = 0
        prev_part_end_i = -1
        part_start_i = -1
        in_partition = False
        false_seen = not after_false
        for i in range(a.shape[0]):
            if reset_by is not None:
                if reset_by[i, col]:
                    reset_i = i
            if a[i, col] and (not (after_false and (not false_seen))):
                if not in_partition:
                    part_start_i = i
                in_partition = True
                out[i, col] = rank_func_nb(i, col, reset_i, prev_part_end_i, part_start_i, *args)
            elif not a[i, col]:
                if in_partition:
                    prev_part_end_i = i - 1
                in_partition = False
                false_seen = True
    return out

def sig_pos_rank_nb(i, col, reset_i, prev_part_end_i, part_start_i, sig_pos_temp, allow_gaps):
    if reset_i > prev_part_end_i and max(reset_i, part_start_i) == i:
        sig_pos_temp[col] = -1
    elif not allow_gaps and part_start_i == i:
        sig_pos_temp[col] = -1
    sig_pos_temp[col] += 1
    return sig_pos_temp[col]

def part_pos_rank_nb(i, col, reset_i, prev_part_end_i, part_start_i, part_pos_temp):
    if reset_i > prev_part_end_i and max(reset_i, part_start_i) == i:
        part_pos_temp[col] = 0
    elif part_start_i == i:
        part_pos_temp[col] += 1
    return part_pos_temp[col]

def nth_index_1d_nb(a, n):
    if n >= 0:
        found = -1
        for i in range(a.shape[0]):
            if a[i]:
                found += 1
                if found == n:
                    return i
    else:
        found = 0
        for i in range(a.shape[0] - 1, -1, -1):
            if a[i]:
                found -= 1
                if found == n:
                    return i
    return -1

def nth_index_nb(a, n):
    out = np.empty(a.shape[1], dtype=np.int64)
    for col in range(a.shape[1]):
        out[col] = nth_index_1d_nb(a[:, col], n)
    return out

def norm_avg_index_1d_nb(a):
    if len(a) <= 1 or not np.any(a):
        return np.nan
    mean_index = np.mean(np.flatnonzero(a))
    return renormalize_nb(mean_index, (0, len(a) - 1), (-1, 1))

def norm_avg_index_nb(a):
    out = np.empty(a.shape[1], dtype=np.float64)
    for col in range(a.shape[1]):
        out[col] = norm_avg_index_1d_nb(a[:, col])
    return out
