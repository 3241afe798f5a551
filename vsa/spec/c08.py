"""Reference bookkeeping equations (parsed as syntax only; never executed).

One order of signed size s at price p with fees f changes
    position by s,  cash by -(s * p) - f,
    debt by the value newly sold short (sell), or by its pro-rata share for the part of the short that is covered (buy),
    free cash by the cash change less twice the debt change.
"""
import numpy as np
from vectorbt.generic import nb as generic_nb
from vectorbt.portfolio.enums import *
from vectorbt.portfolio.nb import check_group_lens_nb
from vectorbt.returns.nb import get_return_nb


def buy_effects(exec_state, price, fees, fixed_fees, slippage, filled):
    fill_price = price + price * slippage
    paid = filled * fill_price * fees + fixed_fees
    if exec_state.position < 0:
        short_before = -exec_state.position
        if exec_state.position + filled < 0:
            covered = filled
        else:
            covered = short_before
        repaid = covered / short_before * exec_state.debt
    else:
        repaid = 0
    cash_change = -(filled * fill_price) - paid
    return (
        exec_state.cash + cash_change,
        exec_state.position + filled,
        exec_state.debt - repaid,
        exec_state.free_cash + cash_change + 2 * repaid,
        fill_price,
        paid,
        OrderSide.Buy,
    )


def sell_effects(exec_state, price, fees, fixed_fees, slippage, filled):
    fill_price = price - price * slippage
    paid = filled * fill_price * fees + fixed_fees
    position_after = exec_state.position - filled
    if position_after < 0:
        if exec_state.position < 0:
            borrowed = filled * fill_price
        else:
            borrowed = -position_after * fill_price
    else:
        borrowed = 0
    cash_change = filled * fill_price - paid
    return (
        exec_state.cash + cash_change,
        position_after,
        exec_state.debt + borrowed,
        exec_state.free_cash + cash_change - 2 * borrowed,
        fill_price,
        paid,
        OrderSide.Sell,
    )


def get_free_cash_diff_nb(position_before, position_now, debt_now, price, fees):
    size = position_now - position_before
    if size == 0:
        return debt_now, 0.0  # nothing traded (orders of size zero are never filled)
    cash_change = -size * price - fees
    if size > 0:
        if position_before < 0:
            if position_now < 0:
                covered = size
            else:
                covered = -position_before
            repaid = covered * debt_now / -position_before
            return debt_now - repaid, cash_change + 2 * repaid
        return debt_now, cash_change
    if position_now < 0:
        if position_before < 0:
            borrowed = -size * price
        else:
            borrowed = -position_now * price
        return debt_now + borrowed, cash_change - 2 * borrowed
    return debt_now, cash_change


def update_value_nb(cash_before, cash_now, position_before, position_now, val_price_before, price, value_before):
    value_change = (position_now * price + cash_now) - (position_before * val_price_before + cash_before)
    return price, value_before + value_change


def get_long_size_nb(position_before, position_now):
    return max(position_now, 0) - max(position_before, 0)


def get_short_size_nb(position_before, position_now):
    return max(-position_now, 0) - max(-position_before, 0)


def asset_flow_nb(target_shape, order_records, col_map, direction):
    col_idxs, col_lens = col_map
    starts = np.cumsum(col_lens) - col_lens
    out = np.full(target_shape, 0.0, dtype=np.float64)
    for col in range(col_lens.shape[0]):
        n = col_lens[col]
        if n == 0:
            continue
        last_id = -1
        position_now = 0.0
        for c in range(n):
            record = order_records[col_idxs[starts[col] + c]]
            if record["id"] < last_id:
                raise ValueError
            last_id = record["id"]
            if record["side"] == OrderSide.Sell:
                size = -record["size"]
            else:
                size = record["size"]
            after = position_now + size
            if direction == Direction.LongOnly:
                flow = get_long_size_nb(position_now, after)
            elif direction == Direction.ShortOnly:
                flow = get_short_size_nb(position_now, after)
            else:
                flow = size
            out[record["idx"], col] += flow
            position_now = after
    return out


def assets_nb(asset_flow):
    out = np.empty_like(asset_flow)
    for col in range(asset_flow.shape[1]):
        position_now = 0.0
        for i in range(asset_flow.shape[0]):
            position_now = position_now + asset_flow[i, col]
            out[i, col] = position_now
    return out


def cash_flow_nb(target_shape, order_records, col_map, free):
    col_idxs, col_lens = col_map
    starts = np.cumsum(col_lens) - col_lens
    out = np.full(target_shape, 0.0, dtype=np.float64)
    for col in range(col_lens.shape[0]):
        n = col_lens[col]
        if n == 0:
            continue
        last_id = -1
        position_now = 0.0
        debt_now = 0.0
        for c in range(n):
            record = order_records[col_idxs[starts[col] + c]]
            if record["id"] < last_id:
                raise ValueError
            last_id = record["id"]
            if record["side"] == OrderSide.Sell:
                size = -record["size"]
            else:
                size = record["size"]
            after = position_now + size
            if free:
                debt_now, flow = get_free_cash_diff_nb(position_now, after, debt_now, record["price"], record["fees"])
            else:
                flow = -size * record["price"] - record["fees"]
            out[record["idx"], col] += flow
            position_now = after
    return out


def sum_grouped_nb(a, group_lens):
    check_group_lens_nb(group_lens, a.shape[1])
    out = np.empty((a.shape[0], len(group_lens)), dtype=np.float64)
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        out[:, group] = np.sum(a[:, from_col:to_col], axis=1)
        from_col = to_col
    return out


def cash_flow_grouped_nb(cash_flow, group_lens):
    return sum_grouped_nb(cash_flow, group_lens)


def asset_value_grouped_nb(asset_value, group_lens):
    return sum_grouped_nb(asset_value, group_lens)


def init_cash_grouped_nb(init_cash, group_lens, cash_sharing):
    if cash_sharing:
        return init_cash
    out = np.empty(group_lens.shape, dtype=np.float64)
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        cash_sum = 0.0
        for col in range(from_col, to_col):
            cash_sum += init_cash[col]
        out[group] = cash_sum
        from_col = to_col
    return out


def init_cash_nb(init_cash, group_lens, cash_sharing):
    if not cash_sharing:
        return init_cash
    group_ends = np.cumsum(group_lens)
    out = np.full(group_ends[-1], np.nan, dtype=np.float64)
    out[group_ends - group_lens] = init_cash
    return generic_nb.ffill_1d_nb(out)


def cash_nb(cash_flow, init_cash):
    out = np.empty_like(cash_flow)
    for col in range(cash_flow.shape[1]):
        for i in range(cash_flow.shape[0]):
            before = init_cash[col] if i == 0 else out[i - 1, col]
            out[i, col] = before + cash_flow[i, col]
    return out


def cash_in_sim_order_nb(cash_flow, group_lens, init_cash_grouped, call_seq):
    check_group_lens_nb(group_lens, cash_flow.shape[1])
    out = np.empty_like(cash_flow)
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        cash_now = init_cash_grouped[group]
        for i in range(cash_flow.shape[0]):
            for k in range(group_lens[group]):
                col = from_col + call_seq[i, from_col + k]
                cash_now = cash_now + cash_flow[i, col]
                out[i, col] = cash_now
        from_col = to_col
    return out


def cash_grouped_nb(target_shape, cash_flow_grouped, group_lens, init_cash_grouped):
    check_group_lens_nb(group_lens, target_shape[1])
    out = np.empty_like(cash_flow_grouped)
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        cash_now = init_cash_grouped[group]
        for i in range(cash_flow_grouped.shape[0]):
            cash_now = cash_now + cash_flow_grouped[i, group]
            out[i, group] = cash_now
        from_col = to_col
    return out


def asset_value_nb(close, assets):
    return assets * close


def value_in_sim_order_nb(cash, asset_value, group_lens, call_seq):
    check_group_lens_nb(group_lens, cash.shape[1])
    out = np.empty_like(cash)
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        group_len = group_lens[group]
        asset_value_now = 0.0
        since_last_nan = group_len
        for j in range(cash.shape[0] * group_len):
            i = j // group_len
            col = from_col + call_seq[i, from_col + j % group_len]
            if j >= group_len:
                # value of the column that was processed one round ago leaves the sum
                p = j - group_len
                pi = p // group_len
                pcol = from_col + call_seq[pi, from_col + p % group_len]
                if not np.isnan(asset_value[pi, pcol]):
                    asset_value_now = asset_value_now - asset_value[pi, pcol]
            if np.isnan(asset_value[i, col]):
                since_last_nan = 0
            else:
                asset_value_now = asset_value_now + asset_value[i, col]
            if since_last_nan < group_len:
                out[i, col] = np.nan
            else:
                out[i, col] = cash[i, col] + asset_value_now
            since_last_nan = since_last_nan + 1
        from_col = to_col
    return out


def value_nb(cash, asset_value):
    return asset_value + cash


def total_profit_nb(target_shape, close, order_records, col_map):
    col_idxs, col_lens = col_map
    starts = np.cumsum(col_lens) - col_lens
    assets = np.full(target_shape[1], 0.0, dtype=np.float64)
    cash = np.full(target_shape[1], 0.0, dtype=np.float64)
    zero_mask = np.full(target_shape[1], False, dtype=np.bool_)
    for col in range(col_lens.shape[0]):
        n = col_lens[col]
        if n == 0:
            zero_mask[col] = True
            continue
        last_id = -1
        for c in range(n):
            record = order_records[col_idxs[starts[col] + c]]
            if record["id"] < last_id:
                raise ValueError
            last_id = record["id"]
            if record["side"] == OrderSide.Buy:
                size = record["size"]
            else:
                size = -record["size"]
            assets[col] += size
            cash[col] += -size * record["price"] - record["fees"]
    total = assets * close[-1, :] + cash
    total[zero_mask] = 0.0
    return total


def total_profit_grouped_nb(total_profit, group_lens):
    check_group_lens_nb(group_lens, total_profit.shape[0])
    out = np.empty(len(group_lens), dtype=np.float64)
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        out[group] = np.sum(total_profit[from_col:to_col])
        from_col = to_col
    return out


def final_value_nb(total_profit, init_cash):
    return init_cash + total_profit


def total_return_nb(total_profit, init_cash):
    return total_profit / init_cash


def returns_in_sim_order_nb(value_iso, group_lens, init_cash_grouped, call_seq):
    check_group_lens_nb(group_lens, value_iso.shape[1])
    out = np.empty_like(value_iso)
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        group_len = group_lens[group]
        before = init_cash_grouped[group]
        for j in range(value_iso.shape[0] * group_len):
            i = j // group_len
            col = from_col + call_seq[i, from_col + j % group_len]
            after = value_iso[i, col]
            out[i, col] = get_return_nb(before, after)
            before = after
        from_col = to_col
    return out


def asset_returns_nb(cash_flow, asset_value):
    out = np.empty_like(cash_flow)
    for col in range(cash_flow.shape[1]):
        for i in range(cash_flow.shape[0]):
            before = 0.0 if i == 0 else asset_value[i - 1, col]
            after = asset_value[i, col] + cash_flow[i, col]
            out[i, col] = get_return_nb(before, after)
    return out


def benchmark_value_nb(close, init_cash):
    return init_cash * close / close[0]


def benchmark_value_grouped_nb(close, group_lens, init_cash_grouped):
    check_group_lens_nb(group_lens, close.shape[1])
    out = np.empty((close.shape[0], len(group_lens)), dtype=np.float64)
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        share = init_cash_grouped[group] / group_lens[group]
        out[:, group] = share * np.sum(close[:, from_col:to_col] / close[0, from_col:to_col], axis=1)
        from_col = to_col
    return out


def total_benchmark_return_nb(benchmark_value):
    out = np.empty(benchmark_value.shape[1], dtype=np.float64)
    for col in range(benchmark_value.shape[1]):
        out[col] = get_return_nb(benchmark_value[0, col], benchmark_value[-1, col])
    return out


def gross_exposure_nb(asset_value, cash):
    out = np.empty(asset_value.shape, dtype=np.float64)
    for col in range(asset_value.shape[1]):
        for i in range(asset_value.shape[0]):
            total = asset_value[i, col] + cash[i, col]
            if total == 0:
                out[i, col] = 0.0
            else:
                out[i, col] = asset_value[i, col] / total
    return out
