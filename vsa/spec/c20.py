"""Reference account-state helpers (parsed as syntax only; never executed)."""
import numpy as np
from vectorbt.base.reshape_fns import flex_select_auto_nb as elem
from vectorbt.portfolio.enums import *
from vectorbt.generic.enums import *
from vectorbt.utils.array_ import insert_argsort_nb as argsort_inplace
from vectorbt.portfolio.nb import shuffle_call_seq_nb as shuffle, approx_order_value_nb as order_value, require_call_seq as own_copy, sort_call_seq_out_nb as sort_custom, replace_inf_price_nb as fix_price, execute_order_nb as execute


def group_value(from_col, to_col, cash, position, val_price):
    value = cash
    for col in range(to_col - from_col):
        if position[from_col + col] != 0:
            value = value + position[from_col + col] * val_price[from_col + col]
    return value


def get_group_value_nb(from_col, to_col, cash_now, last_position, last_val_price):
    return group_value(from_col, to_col, cash_now, last_position, last_val_price)


def get_group_value_ctx_nb(seg_ctx):
    if not seg_ctx.cash_sharing:
        raise ValueError("cash sharing required")
    return group_value(seg_ctx.from_col, seg_ctx.to_col, seg_ctx.last_cash[seg_ctx.group], seg_ctx.last_position, seg_ctx.last_val_price)


def approx_order_value_nb(size, size_type, direction, cash_now, position_now, free_cash_now, val_price_now, value_now):
    if direction == Direction.ShortOnly:
        size = -size
    held = position_now * val_price_now
    if size_type == SizeType.Amount:
        return size * val_price_now
    if size_type == SizeType.Value:
        return size
    if size_type == SizeType.Percent:
        if size >= 0:
            return size * cash_now
        if direction == Direction.LongOnly:
            return size * held
        return size * (2 * max(held, 0) + max(free_cash_now, 0))
    if size_type == SizeType.TargetAmount:
        return size * val_price_now - held
    if size_type == SizeType.TargetValue:
        return size - held
    if size_type == SizeType.TargetPercent:
        return size * value_now - held
    return np.nan


def sort_call_seq_out_nb(ctx, size, size_type, direction, order_value_out, call_seq_out, ctx_select=True):
    if not ctx.cash_sharing:
        raise ValueError("cash sharing required")
    sizes = np.asarray(size)
    types = np.asarray(size_type)
    dirs = np.asarray(direction)
    value = group_value(ctx.from_col, ctx.to_col, ctx.last_cash[ctx.group], ctx.last_position, ctx.last_val_price)
    for k in range(ctx.to_col - ctx.from_col):
        if call_seq_out[k] != k:
            raise ValueError("default call sequence required")
        col = ctx.from_col + k
        if ctx_select:
            s = elem(sizes, ctx.i, col, ctx.flex_2d)
            t = elem(types, ctx.i, col, ctx.flex_2d)
            d = elem(dirs, ctx.i, col, ctx.flex_2d)
        else:
            s = elem(sizes, k, 0, False)
            t = elem(types, k, 0, False)
            d = elem(dirs, k, 0, False)
        order_value_out[k] = order_value(s, t, d, ctx.last_cash[ctx.group], ctx.last_position[col], ctx.last_free_cash[ctx.group], ctx.last_val_price[col], value)
    argsort_inplace(order_value_out, call_seq_out)


def get_col_elem_nb(ctx, col, a):
    return elem(a, ctx.i, col, ctx.flex_2d)


def get_elem_nb(ctx, a):
    return elem(a, ctx.i, ctx.col, ctx.flex_2d)


def shuffle_call_seq_nb(call_seq, group_lens):
    first = 0
    for group in range(len(group_lens)):
        for i in range(call_seq.shape[0]):
            np.random.shuffle(call_seq[i, first:first + group_lens[group]])
        first = first + group_lens[group]


def check_group_lens_nb(group_lens, n_cols):
    if np.sum(group_lens) != n_cols:
        raise ValueError("columns")


def check_group_init_cash_nb(group_lens, n_cols, init_cash, cash_sharing):
    if cash_sharing:
        if len(init_cash) != len(group_lens):
            raise ValueError("groups")
    else:
        if len(init_cash) != n_cols:
            raise ValueError("columns")


def is_grouped_nb(group_lens):
    return np.any(group_lens > 1)


def no_pre_func_nb(c, *args):
    return args


def no_post_func_nb(c, *args):
    return None


def no_order_func_nb(c, *args):
    return NoOrder


def no_flex_order_func_nb(c, *args):
    return -1, NoOrder


def replace_inf_price_nb(prev_close, close, order):
    """An infinite price means the current close, a negative infinite one the previous close."""
    price = order.price
    if price > 0:
        price = close
    else:
        price = prev_close
    return Order(
        size=order.size, price=price, size_type=order.size_type, direction=order.direction, fees=order.fees, fixed_fees=order.fixed_fees,
        slippage=order.slippage, min_size=order.min_size, max_size=order.max_size, size_granularity=order.size_granularity, reject_prob=order.reject_prob,
        lock_cash=order.lock_cash, allow_partial=order.allow_partial, raise_reject=order.raise_reject, log=order.log)


def insert_argsort_nb(A, I):
    """Insertion sort, keys in A, carried along in I; missing keys move to the end."""
    for j in range(1, len(A)):
        key = A[j]
        tag = I[j]
        i = j - 1
        while i >= 0 and (A[i] > key or np.isnan(A[i])):
            A[i + 1] = A[i]
            I[i + 1] = I[i]
            i = i - 1
        A[i + 1] = key
        I[i + 1] = tag


def get_return_nb(input_value, output_value):
    if input_value == 0:
        if output_value == 0:
            return 0.0
        return np.inf * np.sign(output_value)
    change = (output_value - input_value) / input_value
    if input_value < 0:
        change = change * -1
    return change


def init_records_nb(target_shape, max_orders=None, max_logs=0, init_temp_records=False):
    """Buffers; as temporary buffers they are filled with placeholders."""
    if max_orders is None:
        n = target_shape[0] * target_shape[1]
    else:
        n = max_orders
    order_records = np.empty(n, dtype=order_dt)
    if max_logs == 0:
        max_logs = 1
    log_records = np.empty(max_logs, dtype=log_dt)
    if init_temp_records:
        order_records['id'][:] = -1
        order_records['col'][:] = -1
        order_records['idx'][:] = -1
        order_records['size'][:] = np.nan
        order_records['price'][:] = np.nan
        order_records['fees'][:] = np.nan
        order_records['side'][:] = -1
        log_records['id'][:] = -1
        log_records['group'][:] = -1
        log_records['col'][:] = -1
        log_records['idx'][:] = -1
        log_records['cash'][:] = np.nan
        log_records['position'][:] = np.nan
        log_records['debt'][:] = np.nan
        log_records['free_cash'][:] = np.nan
        log_records['val_price'][:] = np.nan
        log_records['value'][:] = np.nan
        log_records['req_size'][:] = np.nan
        log_records['req_price'][:] = np.nan
        log_records['req_size_type'][:] = -1
        log_records['req_direction'][:] = -1
        log_records['req_fees'][:] = np.nan
        log_records['req_fixed_fees'][:] = np.nan
        log_records['req_slippage'][:] = np.nan
        log_records['req_min_size'][:] = np.nan
        log_records['req_max_size'][:] = np.nan
        log_records['req_size_granularity'][:] = np.nan
        log_records['req_reject_prob'][:] = np.nan
        log_records['req_lock_cash'][:] = False
        log_records['req_allow_partial'][:] = False
        log_records['req_raise_reject'][:] = False
        log_records['req_log'][:] = False
        log_records['new_cash'][:] = np.nan
        log_records['new_position'][:] = np.nan
        log_records['new_debt'][:] = np.nan
        log_records['new_free_cash'][:] = np.nan
        log_records['new_val_price'][:] = np.nan
        log_records['new_value'][:] = np.nan
        log_records['res_size'][:] = np.nan
        log_records['res_price'][:] = np.nan
        log_records['res_fees'][:] = np.nan
        log_records['res_side'][:] = -1
        log_records['res_status'][:] = -1
        log_records['res_status_info'][:] = -1
        log_records['order_id'][:] = -1
    return order_records, log_records


def sort_call_seq_nb(ctx, size, size_type, direction, order_value_out, ctx_select=True):
    if ctx.call_seq_now is None:
        raise ValueError("call sequence required")
    sort_custom(ctx, size, size_type, direction, order_value_out, ctx.call_seq_now, ctx_select)


def try_order_nb(ctx, order):
    """Execute the order against the account state of the context, with infinite prices resolved."""
    if np.isinf(order.price):
        if ctx.i > 0:
            before = elem(ctx.close, ctx.i - 1, ctx.col, ctx.flex_2d)
        else:
            before = np.nan
        order = fix_price(before, elem(ctx.close, ctx.i, ctx.col, ctx.flex_2d), order)
    return execute(ProcessOrderState(cash=ctx.cash_now, position=ctx.position_now, debt=ctx.debt_now, free_cash=ctx.free_cash_now,
                                     val_price=ctx.val_price_now, value=ctx.value_now, oidx=-1, lidx=-1), order)


def require_call_seq(call_seq):
    return np.require(call_seq, dtype=np.int64, requirements=['A', 'O', 'W', 'F'])


def build_call_seq_nb(target_shape, group_lens, call_seq_type=CallSeqType.Default):
    """Positions within each group: ascending, descending, or shuffled per row."""
    if call_seq_type == CallSeqType.Reversed:
        row = np.full(target_shape[1], 1, dtype=np.int64)
        row[np.cumsum(group_lens)[1:] - group_lens[1:] - 1] -= group_lens[1:]
        row = np.cumsum(row[::-1])[::-1] - 1
        return row * np.ones((target_shape[0], 1), dtype=np.int64)
    row = np.full(target_shape[1], 1, dtype=np.int64)
    row[np.cumsum(group_lens)[:-1]] -= group_lens[:-1]
    row = np.cumsum(row) - 1
    out = row * np.ones((target_shape[0], 1), dtype=np.int64)
    if call_seq_type == CallSeqType.Random:
        shuffle(out, group_lens)
    return out


def build_call_seq(target_shape, group_lens, call_seq_type=CallSeqType.Default):
    row = np.full(target_shape[1], 1, dtype=np.int64)
    if call_seq_type == CallSeqType.Reversed:
        row[np.cumsum(group_lens)[1:] - group_lens[1:] - 1] -= group_lens[1:]
        row = np.cumsum(row[::-1])[::-1] - 1
    else:
        row[np.cumsum(group_lens[:-1])] -= group_lens[:-1]
        row = np.cumsum(row) - 1
    out = np.broadcast_to(row, target_shape)
    if call_seq_type == CallSeqType.Random:
        out = own_copy(out)
        shuffle(out, group_lens)
    return own_copy(out)
