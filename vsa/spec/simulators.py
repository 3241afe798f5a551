"""Reference simulators, as text for the analyser (parsed as syntax only; never executed).

One template covers the four callback-driven simulators: they differ in the nesting of the row and group loops, in the
enclosing context (group or row) and in who chooses the column of the next order (call sequence or flexible order
function).  The two signal simulators share everything but the source of their signals.
"""
import textwrap

HEAD = '''
import numpy as np
from vectorbt.base.reshape_fns import flex_select_auto_nb as elem
from vectorbt.portfolio.enums import *
from vectorbt.utils.array_ import insert_argsort_nb as argsort_inplace
from vectorbt.returns.nb import get_return_nb
from vectorbt.portfolio.nb import (
    process_order_nb, order_nb, init_records_nb, init_last_pos_record_nb, check_group_lens_nb as check_lens,
    check_group_init_cash_nb as check_cash, is_grouped_nb, approx_order_value_nb, generate_stop_signal_nb,
    resolve_stop_price_and_slippage_nb, resolve_signal_conflict_nb, resolve_dir_conflict_nb, resolve_opposite_entry_nb,
    signals_to_size_nb, should_update_stop_nb, get_stop_price_nb, update_open_pos_stats_nb, update_pos_record_nb,
    get_group_value_nb, replace_inf_price_nb)


def prev_close(close, i, col, flex_2d):
    """Close of the previous row; unknown on the first one."""
    if i > 0:
        return elem(close, i - 1, col, flex_2d)
    return np.nan


def order_price_of(price, close, i, col, flex_2d):
    """Infinity means the current close, minus infinity the previous one."""
    p = elem(price, i, col, flex_2d)
    if not np.isinf(p):
        return p
    if p > 0:
        return elem(close, i, col, flex_2d)
    return prev_close(close, i, col, flex_2d)


def signal_price_of(price, open, close, i, col, flex_2d):
    """Infinity means the current close, minus infinity the current open (or the previous close if there is none)."""
    p = elem(price, i, col, flex_2d)
    if not np.isinf(p):
        return p
    if p > 0:
        return elem(close, i, col, flex_2d)
    o = elem(open, i, col, flex_2d)
    if np.isnan(o):
        return prev_close(close, i, col, flex_2d)
    return o


def val_price_of(val_price, order_price, close, i, col, flex_2d):
    """Infinity means the order price, minus infinity the previous close."""
    v = elem(val_price, i, col, flex_2d)
    if not np.isinf(v):
        return v
    if v > 0:
        return order_price
    return prev_close(close, i, col, flex_2d)


def keep(a, col, v, ffill):
    """Remember the valuation price, skipping NaN when forward filling."""
    if ffill and np.isnan(v):
        return None
    a[col] = v
    return None
'''

STATE = '''
check_lens(group_lens, target_shape[1])
cash_sharing = is_grouped_nb(group_lens)
check_cash(group_lens, target_shape[1], init_cash, cash_sharing)
order_records, log_records = init_records_nb(target_shape, max_orders, max_logs, init_temp_records)
init_cash = init_cash.astype(np.float64)
n_cols = target_shape[1]
last_position = np.full(n_cols, 0.0, dtype=np.float64)
last_debt = np.full(n_cols, 0.0, dtype=np.float64)
last_val_price = np.full(n_cols, np.nan, dtype=np.float64)
'''

PROCESS = '''
state = ProcessOrderState(cash=cash_now, position=last_position[col], debt=last_debt[col], free_cash=free_cash_now,
                          val_price=last_val_price[col], value=value_now, oidx=oidx, lidx=lidx)
order_result, new = process_order_nb(i, col, group, state, update_value, order, order_records, log_records)
cash_now = new.cash
free_cash_now = new.free_cash
value_now = new.value
oidx = new.oidx
lidx = new.lidx
'''

FROM_ORDERS = '''
{state}
order_price = np.full(n_cols, np.nan, dtype=np.float64)
order_value = np.empty(n_cols, dtype=np.float64)
oidx = 0
lidx = 0
from_col = 0
for group in range(len(group_lens)):
    to_col = from_col + group_lens[group]
    group_len = to_col - from_col
    cash_now = init_cash[group]
    free_cash_now = init_cash[group]
    for i in range(target_shape[0]):
        for k in range(group_len):
            col = from_col + k
            p = order_price_of(price, close, i, col, flex_2d)
            order_price[col] = p
            keep(last_val_price, col, val_price_of(val_price, p, close, i, col, flex_2d), ffill_val_price)
        if cash_sharing:
            # the group is valued once per row; individual columns are valued order by order
            value_now = cash_now
            for k in range(group_len):
                if last_position[from_col + k] != 0:
                    value_now += last_position[from_col + k] * last_val_price[from_col + k]
            if auto_call_seq:
                for k in range(group_len):
                    col = from_col + k
                    order_value[k] = approx_order_value_nb(
                        elem(size, i, col, flex_2d), elem(size_type, i, col, flex_2d), elem(direction, i, col, flex_2d),
                        cash_now, last_position[col], free_cash_now, last_val_price[col], value_now)
                argsort_inplace(order_value[:group_len], call_seq[i, from_col:to_col])
        for k in range(group_len):
            col = from_col + k
            if cash_sharing:
                if call_seq[i, from_col + k] >= group_len:
                    raise ValueError
                col = from_col + call_seq[i, from_col + k]
            if not cash_sharing:
                value_now = cash_now
                if last_position[col] != 0:
                    value_now = cash_now + last_position[col] * last_val_price[col]
            order = order_nb(
                size=elem(size, i, col, flex_2d), price=order_price[col], size_type=elem(size_type, i, col, flex_2d),
                direction=elem(direction, i, col, flex_2d), fees=elem(fees, i, col, flex_2d),
                fixed_fees=elem(fixed_fees, i, col, flex_2d), slippage=elem(slippage, i, col, flex_2d),
                min_size=elem(min_size, i, col, flex_2d), max_size=elem(max_size, i, col, flex_2d),
                size_granularity=elem(size_granularity, i, col, flex_2d), reject_prob=elem(reject_prob, i, col, flex_2d),
                lock_cash=elem(lock_cash, i, col, flex_2d), allow_partial=elem(allow_partial, i, col, flex_2d),
                raise_reject=elem(raise_reject, i, col, flex_2d), log=elem(log, i, col, flex_2d))
{process}
            last_position[col] = new.position
            last_debt[col] = new.debt
            keep(last_val_price, col, new.val_price, ffill_val_price)
    from_col = to_col
return order_records[:oidx], log_records[:lidx]
'''

STOPS = [("sl_init_i", "-1", "np.int64"), ("sl_init_price", "np.nan", "np.float64"), ("sl_curr_i", "-1", "np.int64"),
         ("sl_curr_price", "np.nan", "np.float64"), ("sl_curr_stop", "np.nan", "np.float64"), ("sl_curr_trail", "False", "np.bool_"),
         ("tp_init_i", "-1", "np.int64"), ("tp_init_price", "np.nan", "np.float64"), ("tp_curr_stop", "np.nan", "np.float64")]

SIGNALS = '''
{state}
if use_stops:
{stops}
else:
{nostops}
price_arr = np.full(n_cols, np.nan, dtype=np.float64)
size_arr = np.empty(n_cols, dtype=np.float64)
size_type_arr = np.empty(n_cols, dtype=np.float64)
slippage_arr = np.empty(n_cols, dtype=np.float64)
direction_arr = np.empty(n_cols, dtype=np.int64)
order_value = np.empty(n_cols, dtype=np.float64)
oidx = 0
lidx = 0
from_col = 0
for group in range(len(group_lens)):
    to_col = from_col + group_lens[group]
    group_len = to_col - from_col
    cash_now = init_cash[group]
    free_cash_now = init_cash[group]
    for i in range(target_shape[0]):
        for k in range(group_len):
            col = from_col + k
            p = signal_price_of(price, open, close, i, col, flex_2d)
            keep(last_val_price, col, val_price_of(val_price, p, close, i, col, flex_2d), ffill_val_price)
            price_arr[col] = p
        for k in range(group_len):
            col = from_col + k
            pos = last_position[col]
            p = price_arr[col]
            slip = elem(slippage, i, col, flex_2d)
            hit = np.nan
            if use_stops:
{adjust}
                if not np.isnan(sl_curr_stop[col]) or not np.isnan(tp_curr_stop[col]):
                    c_ = elem(close, i, col, flex_2d)
                    o_ = elem(open, i, col, flex_2d)
                    if np.isnan(o_):
                        o_ = c_
                    l_ = elem(low, i, col, flex_2d)
                    if np.isnan(l_):
                        l_ = min(o_, c_)
                    h_ = elem(high, i, col, flex_2d)
                    if np.isnan(h_):
                        h_ = max(o_, c_)
                    # the stop loss is checked first
                    if not np.isnan(sl_curr_stop[col]):
                        hit = get_stop_price_nb(pos, sl_curr_price[col], sl_curr_stop[col], o_, l_, h_, True)
                    if np.isnan(hit) and not np.isnan(tp_curr_stop[col]):
                        hit = get_stop_price_nb(pos, tp_init_price[col], tp_curr_stop[col], o_, l_, h_, False)
                    # only then the trailing reference moves
                    if not np.isnan(sl_curr_stop[col]) and sl_curr_trail[col]:
                        if pos > 0 and h_ > sl_curr_price[col]:
                            sl_curr_i[col] = i
                            sl_curr_price[col] = h_
                        if pos < 0 and l_ < sl_curr_price[col]:
                            sl_curr_i[col] = i
                            sl_curr_price[col] = l_
            acc = elem(accumulate, i, col, flex_2d)
            if use_stops and not np.isnan(hit):
                le, lx, se, sx, acc = generate_stop_signal_nb(pos, elem(upon_stop_exit, i, col, flex_2d), acc)
                p, slip = resolve_stop_price_and_slippage_nb(hit, p, elem(close, i, col, flex_2d), slip,
                                                             elem(stop_exit_price, i, col, flex_2d))
            else:
{signal}
                if le or se:
                    le, lx = resolve_signal_conflict_nb(pos, le, lx, Direction.LongOnly, elem(upon_long_conflict, i, col, flex_2d))
                    se, sx = resolve_signal_conflict_nb(pos, se, sx, Direction.ShortOnly, elem(upon_short_conflict, i, col, flex_2d))
                    le, se = resolve_dir_conflict_nb(pos, le, se, elem(upon_dir_conflict, i, col, flex_2d))
                    le, lx, se, sx, acc = resolve_opposite_entry_nb(pos, le, lx, se, sx, elem(upon_opposite_entry, i, col, flex_2d), acc)
            s, st, d = signals_to_size_nb(pos, le, lx, se, sx, elem(size, i, col, flex_2d), elem(size_type, i, col, flex_2d), acc, last_val_price[col])
            price_arr[col] = p
            slippage_arr[col] = slip
            size_arr[col] = s
            size_type_arr[col] = st
            direction_arr[col] = d
            if cash_sharing:
                if s == 0:
                    order_value[k] = 0.0
                elif st == SizeType.Amount:
                    order_value[k] = s * last_val_price[col]
                elif st == SizeType.Value:
                    order_value[k] = s
                elif s >= 0:
                    order_value[k] = s * cash_now
                elif d == Direction.LongOnly:
                    order_value[k] = s * (pos * last_val_price[col])
                else:
                    order_value[k] = s * (2 * max(pos * last_val_price[col], 0) + max(free_cash_now, 0))
        if cash_sharing:
            if auto_call_seq:
                argsort_inplace(order_value[:group_len], call_seq[i, from_col:to_col])
            value_now = cash_now
            for k in range(group_len):
                if last_position[from_col + k] != 0:
                    value_now += last_position[from_col + k] * last_val_price[from_col + k]
        for k in range(group_len):
            col = from_col + k
            if cash_sharing:
                if call_seq[i, from_col + k] >= group_len:
                    raise ValueError
                col = from_col + call_seq[i, from_col + k]
            if not cash_sharing:
                value_now = cash_now
                if last_position[col] != 0:
                    value_now = cash_now + last_position[col] * last_val_price[col]
            pos_now = last_position[col]
            debt_now = last_debt[col]
            val_now = last_val_price[col]
            s = size_arr[col]
            if s != 0:
                # signals carry the sign of the order: a negative size sells
                if direction_arr[col] == Direction.ShortOnly:
                    s = -s
                order = order_nb(
                    size=s, price=price_arr[col], size_type=size_type_arr[col], direction=direction_arr[col],
                    fees=elem(fees, i, col, flex_2d), fixed_fees=elem(fixed_fees, i, col, flex_2d), slippage=slippage_arr[col],
                    min_size=elem(min_size, i, col, flex_2d), max_size=elem(max_size, i, col, flex_2d),
                    size_granularity=elem(size_granularity, i, col, flex_2d), reject_prob=elem(reject_prob, i, col, flex_2d),
                    lock_cash=elem(lock_cash, i, col, flex_2d), allow_partial=elem(allow_partial, i, col, flex_2d),
                    raise_reject=elem(raise_reject, i, col, flex_2d), log=elem(log, i, col, flex_2d))
{process}
                if use_stops and order_result.status == OrderStatus.Filled:
                    if new.position == 0:
                        # closed: the stops are gone
                        sl_init_i[col] = -1
                        sl_curr_i[col] = -1
                        sl_init_price[col] = np.nan
                        sl_curr_price[col] = np.nan
                        sl_curr_stop[col] = np.nan
                        sl_curr_trail[col] = False
                        tp_init_i[col] = -1
                        tp_init_price[col] = np.nan
                        tp_curr_stop[col] = np.nan
                    else:
                        base = elem(stop_entry_price, i, col, flex_2d)
                        if base == StopEntryPrice.ValPrice:
                            entry = new.val_price
                        elif base == StopEntryPrice.Price:
                            entry = order.price
                        elif base == StopEntryPrice.FillPrice:
                            entry = order_result.price
                        else:
                            entry = elem(close, i, col, flex_2d)
                        upd = elem(upon_stop_update, i, col, flex_2d)
                        sl = elem(sl_stop, i, col, flex_2d)
                        tp = elem(tp_stop, i, col, flex_2d)
                        opened = pos_now == 0 or np.sign(new.position) != np.sign(pos_now)
                        grown = abs(new.position) > abs(pos_now)
                        if opened or grown and should_update_stop_nb(sl, upd):
                            sl_init_i[col] = i
                            sl_curr_i[col] = i
                            sl_init_price[col] = entry
                            sl_curr_price[col] = entry
                            sl_curr_stop[col] = sl
                            sl_curr_trail[col] = elem(sl_trail, i, col, flex_2d)
                        if opened or grown and should_update_stop_nb(tp, upd):
                            tp_init_i[col] = i
                            tp_init_price[col] = entry
                            tp_curr_stop[col] = tp
                pos_now = new.position
                debt_now = new.debt
                val_now = new.val_price
            last_position[col] = pos_now
            last_debt[col] = debt_now
            keep(last_val_price, col, val_now, ffill_val_price)
    from_col = to_col
return order_records[:oidx], log_records[:lidx]
'''

ARRAY_SIGNAL = '''
en = elem(entries, i, col, flex_2d)
ex = elem(exits, i, col, flex_2d)
le = elem(long_entries, i, col, flex_2d)
lx = elem(long_exits, i, col, flex_2d)
se = elem(short_entries, i, col, flex_2d)
sx = elem(short_exits, i, col, flex_2d)
if en or ex:
    d = elem(direction, i, col, flex_2d)
    if d == Direction.LongOnly:
        le = en or le
        lx = ex or lx
    elif d == Direction.ShortOnly:
        se = en or se
        sx = ex or sx
    else:
        # both directions: an exit is an entry in the other direction
        le = en or le
        se = ex or se
'''

FUNC_SIGNAL = '''
c = SignalContext(i=i, col=col, position_now=pos, val_price_now=last_val_price[col], flex_2d=flex_2d)
le, lx, se, sx = signal_func_nb(c, *signal_args)
'''

ADJUST = '''
sl_ctx = AdjustSLContext(i=i, col=col, position_now=pos, val_price_now=last_val_price[col], init_i=sl_init_i[col], init_price=sl_init_price[col],
                         curr_i=sl_curr_i[col], curr_price=sl_curr_price[col], curr_stop=sl_curr_stop[col], curr_trail=sl_curr_trail[col])
sl_curr_stop[col], sl_curr_trail[col] = adjust_sl_func_nb(sl_ctx, *adjust_sl_args)
tp_ctx = AdjustTPContext(i=i, col=col, position_now=pos, val_price_now=last_val_price[col], init_i=tp_init_i[col], init_price=tp_init_price[col],
                         curr_stop=tp_curr_stop[col])
tp_curr_stop[col] = adjust_tp_func_nb(tp_ctx, *adjust_tp_args)
'''

# ---------------------------------------------------------------------------------------------------------------
# callback-driven simulators

SIM = ("target_shape group_lens init_cash cash_sharing call_seq segment_mask call_pre_segment call_post_segment close ffill_val_price update_value "
       "fill_pos_record flex_2d order_records log_records last_cash last_position last_debt last_free_cash last_val_price last_value second_last_value "
       "last_return last_oidx last_lidx last_pos_record").split()
GROUP = SIM + "group group_len from_col to_col".split()
ROW = SIM + ["i"]
SEG = GROUP + "i call_seq_now".split()
NOW = "cash_now position_now debt_now free_cash_now val_price_now value_now return_now pos_record_now".split()
ORDER = SEG + ["col", "call_idx"] + NOW
FLEX = SEG + ["call_idx"]
POST = ORDER + ["order_result"] + [f"{x}_before" for x in "cash position debt free_cash val_price value".split()]


def ctx(cls, names, flex):
    given = {f"{x}_before": f"state.{x}" for x in "cash position debt free_cash val_price value".split()}
    if flex:
        given.update(call_seq="None", call_seq_now="None")
    return f"{cls}({', '.join(f'{n}={given.get(n, n)}' for n in names)})"


CALLBACK = '''
check_lens(group_lens, target_shape[1])
check_cash(group_lens, target_shape[1], init_cash, cash_sharing)
order_records, log_records = init_records_nb(target_shape, max_orders, max_logs, init_temp_records)
init_cash = init_cash.astype(np.float64)
n_cols = target_shape[1]
last_cash = init_cash.copy()
last_position = np.full(n_cols, 0.0, dtype=np.float64)
last_debt = np.full(n_cols, 0.0, dtype=np.float64)
last_free_cash = init_cash.copy()
last_val_price = np.full(n_cols, np.nan, dtype=np.float64)
last_value = init_cash.copy()
second_last_value = init_cash.copy()
temp_value = init_cash.copy()
last_return = np.full_like(last_value, np.nan)
last_pos_record = init_last_pos_record_nb(target_shape, init_temp_records)
last_oidx = np.full(n_cols, -1, dtype=np.int64)
last_lidx = np.full(n_cols, -1, dtype=np.int64)
oidx = 0
lidx = 0
pre_sim_out = pre_sim_func_nb({sim}, *pre_sim_args)
{loops}
post_sim_func_nb({sim}, *post_sim_args)
return order_records[:oidx], log_records[:lidx]
'''

GROUP_LOOPS = '''
from_col = 0
for group in range(len(group_lens)):
    to_col = from_col + group_lens[group]
    group_len = to_col - from_col
    outer_out = pre_group_func_nb({outer}, *pre_sim_out, *pre_group_args)
    for i in range(target_shape[0]):
{segment}
    post_group_func_nb({outer}, *pre_sim_out, *post_group_args)
    from_col = to_col
'''

ROW_LOOPS = '''
for i in range(target_shape[0]):
    outer_out = pre_row_func_nb({outer}, *pre_sim_out, *pre_row_args)
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        group_len = to_col - from_col
{segment}
        from_col = to_col
    post_row_func_nb({outer}, *pre_sim_out, *post_row_args)
'''

SEGMENT = '''
{callseq}
if call_pre_segment or segment_mask[i, group]:
    pre_segment_out = pre_segment_func_nb({seg}, *outer_out, *pre_segment_args)
if fill_pos_record:
    for col in range(from_col, to_col):
        update_open_pos_stats_nb(last_pos_record[col], last_position[col], last_val_price[col])
# revalue before the first order
if cash_sharing:
    v = get_group_value_nb(from_col, to_col, last_cash[group], last_position, last_val_price)
    last_value[group] = v
    last_return[group] = get_return_nb(second_last_value[group], v)
else:
    for col in range(from_col, to_col):
        v = last_cash[col]
        if last_position[col] != 0:
            v = v + last_position[col] * last_val_price[col]
        last_value[col] = v
        last_return[col] = get_return_nb(second_last_value[col], v)
if segment_mask[i, group]:
{orders}
# the row closes: remember the close, revalue, shift the value history
for col in range(from_col, to_col):
    keep(last_val_price, col, elem(close, i, col, flex_2d), ffill_val_price)
if cash_sharing:
    v = get_group_value_nb(from_col, to_col, last_cash[group], last_position, last_val_price)
    last_value[group] = v
    second_last_value[group] = temp_value[group]
    last_return[group] = get_return_nb(temp_value[group], v)
    temp_value[group] = v
else:
    for col in range(from_col, to_col):
        v = last_cash[col]
        if last_position[col] != 0:
            v = v + last_position[col] * last_val_price[col]
        last_value[col] = v
        second_last_value[col] = temp_value[col]
        last_return[col] = get_return_nb(temp_value[col], v)
        temp_value[col] = v
if fill_pos_record:
    for col in range(from_col, to_col):
        update_open_pos_stats_nb(last_pos_record[col], last_position[col], last_val_price[col])
if call_post_segment or segment_mask[i, group]:
    post_segment_func_nb({seg}, *outer_out, *post_segment_args)
'''

FIXED_ORDERS = '''
for call_idx in range(group_len):
    if call_seq_now[call_idx] >= group_len:
        raise ValueError
    col = from_col + call_seq_now[call_idx]
{read}
    order = order_func_nb({octx}, *pre_segment_out, *order_args)
{fill}
'''

FLEX_ORDERS = '''
call_idx = -1
while True:
    call_idx += 1
    col, order = flex_order_func_nb({octx}, *pre_segment_out, *flex_order_args)
    if col == -1:
        break
    if col < from_col or col >= to_col:
        raise ValueError
{read}
{fill}
'''

READ = '''
position_now = last_position[col]
debt_now = last_debt[col]
val_price_now = last_val_price[col]
pos_record_now = last_pos_record[col]
if cash_sharing:
    acct = group
else:
    acct = col
cash_now = last_cash[acct]
free_cash_now = last_free_cash[acct]
value_now = last_value[acct]
return_now = last_return[acct]
'''

FILL = '''
if np.isinf(order.price):
    order = replace_inf_price_nb(prev_close(close, i, col, flex_2d), elem(close, i, col, flex_2d), order)
state = ProcessOrderState(cash=cash_now, position=position_now, debt=debt_now, free_cash=free_cash_now,
                          val_price=val_price_now, value=value_now, oidx=oidx, lidx=lidx)
order_result, new = process_order_nb(i, col, group, state, update_value, order, order_records, log_records)
cash_now = new.cash
position_now = new.position
debt_now = new.debt
free_cash_now = new.free_cash
val_price_now = new.val_price
value_now = new.value
if cash_sharing:
    return_now = get_return_nb(second_last_value[group], value_now)
    last_cash[group] = cash_now
    last_free_cash[group] = free_cash_now
    last_value[group] = value_now
    last_return[group] = return_now
else:
    return_now = get_return_nb(second_last_value[col], value_now)
    last_cash[col] = cash_now
    last_free_cash[col] = free_cash_now
    last_value[col] = value_now
    last_return[col] = return_now
last_position[col] = position_now
last_debt[col] = debt_now
keep(last_val_price, col, val_price_now, ffill_val_price)
# the records just written, if any
if oidx != new.oidx:
    last_oidx[col] = oidx
if lidx != new.lidx:
    last_lidx[col] = lidx
oidx = new.oidx
lidx = new.lidx
if fill_pos_record:
    update_pos_record_nb(pos_record_now, i, col, state.position, position_now, order_result)
post_order_func_nb({post}, *pre_segment_out, *post_order_args)
'''


def ind(s, n):
    return textwrap.indent(s.strip("\n"), " " * n)


def callback_sim(row, flex):
    fill = FILL.format(post=ctx("PostOrderContext", POST, flex))
    octx = ctx("FlexOrderContext", FLEX, flex) if flex else ctx("OrderContext", ORDER, flex)
    orders = (FLEX_ORDERS if flex else FIXED_ORDERS).format(octx=octx, read=ind(READ, 4), fill=ind(fill, 4))
    seg = SEGMENT.format(callseq="" if flex else "call_seq_now = call_seq[i, from_col:to_col]", seg=ctx("SegmentContext", SEG, flex), orders=ind(orders, 4))
    if row:
        loops = ROW_LOOPS.format(outer=ctx("RowContext", ROW, flex), segment=ind(seg, 8))
    else:
        loops = GROUP_LOOPS.format(outer=ctx("GroupContext", GROUP, flex), segment=ind(seg, 8))
    return CALLBACK.format(sim=ctx("SimulationContext", SIM, flex), loops=loops.strip("\n"))


def text(params):
    """params: simulator name -> its parameter names (taken from the code under analysis)."""
    stops = "\n".join(f"    {n} = np.full(n_cols, {v}, dtype={d})" for n, v, d in STOPS)
    nostops = "\n".join(f"    {n} = np.empty(0, dtype={d})" for n, v, d in STOPS)

    def signals(signal, adjust):
        return SIGNALS.format(state=STATE.strip("\n"), stops=stops, nostops=nostops, process=ind(PROCESS, 16), signal=ind(signal, 16), adjust=ind(adjust, 16))
    bodies = {
        "simulate_from_orders_nb": FROM_ORDERS.format(state=STATE.strip("\n"), process=ind(PROCESS, 12)),
        "simulate_from_signals_nb": signals(ARRAY_SIGNAL, "pass"),
        "simulate_from_signal_func_nb": signals(FUNC_SIGNAL, ADJUST),
        "simulate_nb": callback_sim(False, False),
        "simulate_row_wise_nb": callback_sim(True, False),
        "flex_simulate_nb": callback_sim(False, True),
        "flex_simulate_row_wise_nb": callback_sim(True, True),
    }
    out = HEAD
    for name, body in bodies.items():
        out += f"\n\ndef {name}({', '.join(params[name])}):\n{ind(body, 4)}\n"
    return out
