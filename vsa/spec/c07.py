"""Reference record construction (parsed as syntax only; never executed)."""
import numpy as np
from vectorbt.portfolio.enums import *
from vectorbt.generic.enums import *
from vectorbt.portfolio.nb import fill_trade_record_nb as fill_trade, get_trade_stats_nb as trade_stats, fill_entry_trades_in_position_nb as fill_entry_trades, fill_position_record_nb as fill_position, copy_trade_record_nb as copy_trade, update_open_pos_stats_nb as update_open_stats


def get_trade_stats_nb(size, entry_price, entry_fees, exit_price, exit_fees, direction):
    gain = size * exit_price - size * entry_price
    if direction == TradeDirection.Short:
        gain = -gain
    pnl = gain - entry_fees - exit_fees
    return pnl, pnl / (size * entry_price)


def fill_trade_record_nb(record, id_, col, size, entry_idx, entry_price, entry_fees, exit_idx, exit_price, exit_fees, direction, status, parent_id):
    pnl, ret = trade_stats(size, entry_price, entry_fees, exit_price, exit_fees, direction)
    record['id'] = id_
    record['col'] = col
    record['size'] = size
    record['entry_idx'] = entry_idx
    record['entry_price'] = entry_price
    record['entry_fees'] = entry_fees
    record['exit_idx'] = exit_idx
    record['exit_price'] = exit_price
    record['exit_fees'] = exit_fees
    record['pnl'] = pnl
    record['return'] = ret
    record['direction'] = direction
    record['status'] = status
    record['parent_id'] = parent_id


def fill_order_record_nb(record, record_id, i, col, order_result):
    record['id'] = record_id
    record['col'] = col
    record['idx'] = i
    record['size'] = order_result.size
    record['price'] = order_result.price
    record['fees'] = order_result.fees
    record['side'] = order_result.side


def fill_log_record_nb(record, record_id, i, col, group, cash, position, debt, free_cash, val_price, value, order, new_cash, new_position, new_debt, new_free_cash, new_val_price, new_value, order_result, order_id):
    record['id'] = record_id
    record['group'] = group
    record['col'] = col
    record['idx'] = i
    record['cash'] = cash
    record['position'] = position
    record['debt'] = debt
    record['free_cash'] = free_cash
    record['val_price'] = val_price
    record['value'] = value
    record['req_size'] = order.size
    record['req_price'] = order.price
    record['req_size_type'] = order.size_type
    record['req_direction'] = order.direction
    record['req_fees'] = order.fees
    record['req_fixed_fees'] = order.fixed_fees
    record['req_slippage'] = order.slippage
    record['req_min_size'] = order.min_size
    record['req_max_size'] = order.max_size
    record['req_size_granularity'] = order.size_granularity
    record['req_reject_prob'] = order.reject_prob
    record['req_lock_cash'] = order.lock_cash
    record['req_allow_partial'] = order.allow_partial
    record['req_raise_reject'] = order.raise_reject
    record['req_log'] = order.log
    record['new_cash'] = new_cash
    record['new_position'] = new_position
    record['new_debt'] = new_debt
    record['new_free_cash'] = new_free_cash
    record['new_val_price'] = new_val_price
    record['new_value'] = new_value
    record['res_size'] = order_result.size
    record['res_price'] = order_result.price
    record['res_fees'] = order_result.fees
    record['res_side'] = order_result.side
    record['res_status'] = order_result.status
    record['res_status_info'] = order_result.status_info
    record['order_id'] = order_id


def is_entry(direction, side):
    return direction == TradeDirection.Long and side == OrderSide.Buy or direction == TradeDirection.Short and side == OrderSide.Sell


def is_exit(direction, side):
    return direction == TradeDirection.Long and side == OrderSide.Sell or direction == TradeDirection.Short and side == OrderSide.Buy


def direction_of(side):
    if side == OrderSide.Buy:
        return TradeDirection.Long
    return TradeDirection.Short


def fill_entry_trades_in_position_nb(order_records, col_map, col, first_c, last_c, first_entry_size, first_entry_fees, exit_idx, exit_size_sum, exit_gross_sum, exit_fees_sum, direction, status, parent_id, trade_records, tidx):
    """One trade per entry order; exit price and fees are shared in proportion to size."""
    start = np.cumsum(col_map[1]) - col_map[1]
    for c in range(first_c, last_c + 1):
        record = order_records[col_map[0][start[col] + c]]
        if is_exit(direction, record['side']):
            continue
        size = record['size']
        fees = record['fees']
        if c == first_c:
            size = first_entry_size
            fees = first_entry_fees
        fill_trade(trade_records[tidx], tidx, col, size, record['idx'], record['price'], fees, exit_idx,
                   exit_gross_sum / exit_size_sum, size / exit_size_sum * exit_fees_sum, direction, status, parent_id)
        tidx += 1
    return tidx


def get_entry_trades_nb(order_records, close, col_map):
    idxs, lens = col_map
    start = np.cumsum(lens) - lens
    records = np.empty(len(order_records), dtype=trade_dt)
    tidx = 0
    parent_id = -1
    for col in range(lens.shape[0]):
        if lens[col] == 0:
            continue
        last_id = -1
        in_position = False
        for c in range(lens[col]):
            order = order_records[idxs[start[col] + c]]
            if order['id'] < last_id:
                raise ValueError
            last_id = order['id']
            size = order['size']
            price = order['price']
            fees = order['fees']
            side = order['side']
            if size <= 0.0:
                raise ValueError
            if price <= 0.0:
                raise ValueError
            if not in_position:
                in_position = True
                first_c = c
                parent_id += 1
                direction = direction_of(side)
                entry_size_sum = 0.0
                exit_size_sum = 0.0
                exit_gross_sum = 0.0
                exit_fees_sum = 0.0
                first_entry_size = size
                first_entry_fees = fees
            if is_entry(direction, side):
                entry_size_sum += size
            elif is_exit(direction, side):
                if exit_size_sum + size == entry_size_sum:
                    # closes the position
                    in_position = False
                    last_c = c
                    exit_size_sum = entry_size_sum
                    exit_gross_sum = exit_gross_sum + size * price
                    exit_fees_sum = exit_fees_sum + fees
                    tidx = fill_entry_trades(order_records, col_map, col, first_c, last_c, first_entry_size, first_entry_fees, order['idx'],
                                             exit_size_sum, exit_gross_sum, exit_fees_sum, direction, TradeStatus.Closed, parent_id, records, tidx)
                elif exit_size_sum + size < entry_size_sum:
                    # reduces the position
                    exit_size_sum = exit_size_sum + size
                    exit_gross_sum = exit_gross_sum + size * price
                    exit_fees_sum = exit_fees_sum + fees
                else:
                    # reverses the position: the order is split between the old and the new position
                    last_c = c
                    closing = entry_size_sum - exit_size_sum
                    exit_size_sum = entry_size_sum
                    exit_gross_sum = exit_gross_sum + closing * price
                    exit_fees_sum = exit_fees_sum + closing / size * fees
                    tidx = fill_entry_trades(order_records, col_map, col, first_c, last_c, first_entry_size, first_entry_fees, order['idx'],
                                             exit_size_sum, exit_gross_sum, exit_fees_sum, direction, TradeStatus.Closed, parent_id, records, tidx)
                    first_c = c
                    parent_id += 1
                    direction = direction_of(side)
                    entry_size_sum = size - closing
                    first_entry_size = entry_size_sum
                    first_entry_fees = entry_size_sum / size * fees
                    exit_size_sum = 0.0
                    exit_gross_sum = 0.0
                    exit_fees_sum = 0.0
        if in_position and exit_size_sum < entry_size_sum:
            # still open: valued at the last close
            last_c = lens[col] - 1
            remaining = entry_size_sum - exit_size_sum
            exit_size_sum = entry_size_sum
            exit_gross_sum = exit_gross_sum + remaining * close[close.shape[0] - 1, col]
            tidx = fill_entry_trades(order_records, col_map, col, first_c, last_c, first_entry_size, first_entry_fees, close.shape[0] - 1,
                                     exit_size_sum, exit_gross_sum, exit_fees_sum, direction, TradeStatus.Open, parent_id, records, tidx)
    return records[:tidx]


def get_exit_trades_nb(order_records, close, col_map):
    idxs, lens = col_map
    start = np.cumsum(lens) - lens
    records = np.empty(len(order_records), dtype=trade_dt)
    tidx = 0
    parent_id = -1
    for col in range(lens.shape[0]):
        if lens[col] == 0:
            continue
        last_id = -1
        in_position = False
        for c in range(lens[col]):
            order = order_records[idxs[start[col] + c]]
            if order['id'] < last_id:
                raise ValueError
            last_id = order['id']
            i = order['idx']
            size = order['size']
            price = order['price']
            fees = order['fees']
            side = order['side']
            if size <= 0.0:
                raise ValueError
            if price <= 0.0:
                raise ValueError
            if not in_position:
                in_position = True
                entry_idx = i
                direction = direction_of(side)
                parent_id += 1
                entry_size_sum = 0.0
                entry_gross_sum = 0.0
                entry_fees_sum = 0.0
            if is_entry(direction, side):
                entry_size_sum = entry_size_sum + size
                entry_gross_sum = entry_gross_sum + size * price
                entry_fees_sum = entry_fees_sum + fees
            elif is_exit(direction, side):
                if size <= entry_size_sum:
                    if size == entry_size_sum:
                        exit_size = entry_size_sum
                    else:
                        exit_size = size
                    fill_trade(records[tidx], tidx, col, exit_size, entry_idx, entry_gross_sum / entry_size_sum, exit_size / entry_size_sum * entry_fees_sum,
                               i, price, fees, direction, TradeStatus.Closed, parent_id)
                    tidx += 1
                    if size == entry_size_sum:
                        entry_idx = -1
                        direction = -1
                        in_position = False
                    else:
                        left = (entry_size_sum - size) / entry_size_sum
                        entry_size_sum = entry_size_sum * left
                        entry_gross_sum = entry_gross_sum * left
                        entry_fees_sum = entry_fees_sum * left
                else:
                    closing = entry_size_sum
                    fill_trade(records[tidx], tidx, col, closing, entry_idx, entry_gross_sum / entry_size_sum, closing / entry_size_sum * entry_fees_sum,
                               i, price, closing / size * fees, direction, TradeStatus.Closed, parent_id)
                    tidx += 1
                    entry_size_sum = size - closing
                    entry_gross_sum = entry_size_sum * price
                    entry_fees_sum = fees - closing / size * fees
                    entry_idx = i
                    parent_id += 1
                    if direction == TradeDirection.Long:
                        direction = TradeDirection.Short
                    else:
                        direction = TradeDirection.Long
        if in_position and -entry_size_sum < 0:
            fill_trade(records[tidx], tidx, col, entry_size_sum, entry_idx, entry_gross_sum / entry_size_sum, entry_size_sum / entry_size_sum * entry_fees_sum,
                       close.shape[0] - 1, close[close.shape[0] - 1, col], 0.0, direction, TradeStatus.Open, parent_id)
            tidx += 1
    return records[:tidx]


def trade_winning_streak_nb(records):
    out = np.full(len(records), 0, dtype=np.int64)
    n = 0
    for i in range(len(records)):
        if records[i]['pnl'] > 0:
            n += 1
        else:
            n = 0
        out[i] = n
    return out


def trade_losing_streak_nb(records):
    out = np.full(len(records), 0, dtype=np.int64)
    n = 0
    for i in range(len(records)):
        if records[i]['pnl'] < 0:
            n += 1
        else:
            n = 0
        out[i] = n
    return out


def fill_position_record_nb(record, id_, trade_records):
    size = np.sum(trade_records['size'])
    entry_price = np.sum(trade_records['size'] * trade_records['entry_price']) / size
    entry_fees = np.sum(trade_records['entry_fees'])
    exit_price = np.sum(trade_records['size'] * trade_records['exit_price']) / size
    exit_fees = np.sum(trade_records['exit_fees'])
    pnl, ret = trade_stats(size, entry_price, entry_fees, exit_price, exit_fees, trade_records['direction'][-1])
    record['id'] = id_
    record['col'] = trade_records['col'][0]
    record['size'] = size
    record['entry_idx'] = trade_records['entry_idx'][0]
    record['entry_price'] = entry_price
    record['entry_fees'] = entry_fees
    record['exit_idx'] = trade_records['exit_idx'][-1]
    record['exit_price'] = exit_price
    record['exit_fees'] = exit_fees
    record['pnl'] = pnl
    record['return'] = ret
    record['direction'] = trade_records['direction'][-1]
    record['status'] = trade_records['status'][-1]
    record['parent_id'] = id_


def copy_trade_record_nb(record, trade_record):
    record['id'] = trade_record['id']
    record['col'] = trade_record['col']
    record['size'] = trade_record['size']
    record['entry_idx'] = trade_record['entry_idx']
    record['entry_price'] = trade_record['entry_price']
    record['entry_fees'] = trade_record['entry_fees']
    record['exit_idx'] = trade_record['exit_idx']
    record['exit_price'] = trade_record['exit_price']
    record['exit_fees'] = trade_record['exit_fees']
    record['pnl'] = trade_record['pnl']
    record['return'] = trade_record['return']
    record['direction'] = trade_record['direction']
    record['status'] = trade_record['status']
    record['parent_id'] = trade_record['parent_id']


def close_position_record(records, pidx, trade_records, first, last):
    """Trades first..last (inclusive) make up one position."""
    if last > first:
        fill_position(records[pidx], pidx, trade_records[first:last + 1])
    else:
        copy_trade(records[pidx], trade_records[first])
        records[pidx]['id'] = pidx
        records[pidx]['parent_id'] = pidx


def get_positions_nb(trade_records, col_map):
    idxs, lens = col_map
    start = np.cumsum(lens) - lens
    records = np.empty(len(trade_records), dtype=trade_dt)
    pidx = 0
    from_tidx = -1
    for col in range(lens.shape[0]):
        if lens[col] == 0:
            continue
        last_id = -1
        last_position_id = -1
        for c in range(lens[col]):
            tidx = idxs[start[col] + c]
            trade = trade_records[tidx]
            if trade['id'] < last_id:
                raise ValueError
            last_id = trade['id']
            if trade['parent_id'] != last_position_id:
                if last_position_id != -1:
                    close_position_record(records, pidx, trade_records, from_tidx, tidx - 1)
                    pidx += 1
                from_tidx = tidx
                last_position_id = trade['parent_id']
        close_position_record(records, pidx, trade_records, from_tidx, tidx)
        pidx += 1
    return records[:pidx]


def average_exit(record, size_before, size, price):
    """Average exit price after `size` more leave a position whose size was size_before before that."""
    if np.isnan(record['exit_price']):
        return price
    exited = record['size'] - size_before
    return (exited * record['exit_price'] + size * price) / (exited + size)


def update_open_pos_stats_nb(record, position_now, price):
    if record['id'] >= 0 and record['status'] == TradeStatus.Open:
        if np.isnan(record['exit_price']):
            exit_price = price
        else:
            # what is left is valued at the current price
            exit_price = ((record['size'] - abs(position_now)) * record['exit_price'] + abs(position_now) * price) / record['size']
        pnl, ret = trade_stats(record['size'], record['entry_price'], record['entry_fees'], exit_price, record['exit_fees'], record['direction'])
        record['pnl'] = pnl
        record['return'] = ret


def open_record(record, i, size, price, fees, side):
    record['id'] = record['id'] + 1
    record['size'] = size
    record['entry_idx'] = i
    record['entry_price'] = price
    record['entry_fees'] = fees
    record['exit_idx'] = -1
    record['exit_price'] = np.nan
    record['exit_fees'] = 0.0
    record['direction'] = direction_of(side)
    record['status'] = TradeStatus.Open
    record['parent_id'] = record['id']


def update_pos_record_nb(record, i, col, position_before, position_now, order_result):
    if order_result.status == OrderStatus.Filled:
        if position_before == 0 and position_now != 0:
            record['col'] = col
            open_record(record, i, order_result.size, order_result.price, order_result.fees, order_result.side)
        elif position_before != 0 and position_now == 0:
            record['exit_idx'] = i
            if np.isnan(record['exit_price']):
                exit_price = order_result.price
            else:
                exit_price = ((record['size'] - abs(position_before)) * record['exit_price'] + abs(position_before) * order_result.price) / record['size']
            record['exit_price'] = exit_price
            record['exit_fees'] = record['exit_fees'] + order_result.fees
            pnl, ret = trade_stats(record['size'], record['entry_price'], record['entry_fees'], record['exit_price'], record['exit_fees'], record['direction'])
            record['pnl'] = pnl
            record['return'] = ret
            record['status'] = TradeStatus.Closed
        elif np.sign(position_before) != np.sign(position_now):
            # reversed: the part of the fees that belongs to the new position
            open_record(record, i, abs(position_now), order_result.price, abs(position_now) / abs(position_now - position_before) * order_result.fees, order_result.side)
        elif abs(position_before) <= abs(position_now):
            record['entry_price'] = (record['size'] * record['entry_price'] + order_result.size * order_result.price) / (record['size'] + order_result.size)
            record['entry_fees'] = record['entry_fees'] + order_result.fees
            record['size'] = record['size'] + order_result.size
        else:
            record['exit_price'] = average_exit(record, abs(position_before), order_result.size, order_result.price)
            record['exit_fees'] = record['exit_fees'] + order_result.fees
        update_open_stats(record, position_now, order_result.price)


def init_last_pos_record_nb(target_shape, init_temp_records):
    out = np.empty(target_shape[1], dtype=trade_dt)
    out['id'][:] = -1
    if init_temp_records:
        out['col'][:] = -1
        out['size'][:] = np.nan
        out['entry_idx'][:] = -1
        out['entry_price'][:] = np.nan
        out['entry_fees'][:] = np.nan
        out['exit_idx'][:] = -1
        out['exit_price'][:] = np.nan
        out['exit_fees'][:] = np.nan
        out['pnl'][:] = np.nan
        out['return'][:] = np.nan
        out['direction'][:] = -1
        out['status'][:] = -1
        out['parent_id'][:] = -1
    return out


def find_ranges_nb(ts, gap_value):
    """Maximal runs of non-gap values; closed by the first gap after them, open when they reach the end."""
    out = np.empty(ts.shape[0] * ts.shape[1], dtype=range_dt)
    n = 0
    for col in range(ts.shape[1]):
        started = False
        start_idx = -1
        end_idx = -1
        store = False
        status = -1
        for i in range(ts.shape[0]):
            v = ts[i, col]
            if v == gap_value or np.isnan(v) and np.isnan(gap_value):
                if started:
                    end_idx = i
                    started = False
                    store = True
                    status = RangeStatus.Closed
            else:
                if not started:
                    start_idx = i
                    started = True
            if i == ts.shape[0] - 1 and started:
                end_idx = ts.shape[0] - 1
                started = False
                store = True
                status = RangeStatus.Open
            if store:
                out[n]['id'] = n
                out[n]['col'] = col
                out[n]['start_idx'] = start_idx
                out[n]['end_idx'] = end_idx
                out[n]['status'] = status
                n += 1
                store = False
    return out[:n]


def get_drawdowns_nb(ts):
    """From a peak over its valley to recovery, or to the last row while active."""
    out = np.empty(ts.shape[0] * ts.shape[1], dtype=drawdown_dt)
    n = 0
    for col in range(ts.shape[1]):
        started = False
        peak_idx = -1
        valley_idx = -1
        peak_val = ts[0, col]
        valley_val = ts[0, col]
        store = False
        status = -1
        for i in range(ts.shape[0]):
            v = ts[i, col]
            if np.isnan(v):
                continue
            if np.isnan(peak_val) or v >= peak_val:
                if not started:
                    peak_val = v
                    peak_idx = i
                elif v >= peak_val:
                    started = False
                    store = True
                    status = DrawdownStatus.Recovered
            elif not started:
                started = True
                valley_val = v
                valley_idx = i
            elif v < valley_val:
                valley_val = v
                valley_idx = i
            if i == ts.shape[0] - 1 and started:
                started = False
                store = True
                status = DrawdownStatus.Active
            if store:
                out[n]['id'] = n
                out[n]['col'] = col
                out[n]['peak_idx'] = peak_idx
                out[n]['start_idx'] = peak_idx + 1
                out[n]['valley_idx'] = valley_idx
                out[n]['end_idx'] = i
                out[n]['peak_val'] = peak_val
                out[n]['valley_val'] = valley_val
                out[n]['end_val'] = v
                out[n]['status'] = status
                n += 1
                peak_idx = i
                valley_idx = i
                peak_val = v
                valley_val = v
                store = False
                status = -1
    return out[:n]


def range_duration_nb(start_idx_arr, end_idx_arr, status_arr):
    """An open range includes its last row."""
    out = np.empty(start_idx_arr.shape[0], dtype=np.int64)
    for r in range(out.shape[0]):
        d = end_idx_arr[r] - start_idx_arr[r]
        if status_arr[r] == RangeStatus.Open:
            d = d + 1
        out[r] = d
    return out


def range_coverage_nb(start_idx_arr, end_idx_arr, status_arr, col_map, index_lens, overlapping, normalize):
    idxs, lens = col_map
    start = np.cumsum(lens) - lens
    out = np.full(lens.shape[0], np.nan, dtype=np.float64)
    for col in range(lens.shape[0]):
        if lens[col] == 0:
            continue
        n = np.full(index_lens[col], 0, dtype=np.int64)
        for r in idxs[start[col]:start[col] + lens[col]]:
            if status_arr[r] == RangeStatus.Open:
                n[start_idx_arr[r]:end_idx_arr[r] + 1] += 1
            else:
                n[start_idx_arr[r]:end_idx_arr[r]] += 1
        if overlapping:
            if normalize:
                out[col] = np.sum(n > 1) / np.sum(n > 0)
            else:
                out[col] = np.sum(n > 1)
        else:
            if normalize:
                out[col] = np.sum(n > 0) / index_lens[col]
            else:
                out[col] = np.sum(n > 0)
    return out


def ranges_to_mask_nb(start_idx_arr, end_idx_arr, status_arr, col_map, index_len):
    idxs, lens = col_map
    start = np.cumsum(lens) - lens
    out = np.full((index_len, lens.shape[0]), False, dtype=np.bool_)
    for col in range(lens.shape[0]):
        if lens[col] == 0:
            continue
        for r in idxs[start[col]:start[col] + lens[col]]:
            if status_arr[r] == RangeStatus.Open:
                out[start_idx_arr[r]:end_idx_arr[r] + 1, col] = True
            else:
                out[start_idx_arr[r]:end_idx_arr[r], col] = True
    return out


def dd_drawdown_nb(peak_val_arr, valley_val_arr):
    return (valley_val_arr - peak_val_arr) / peak_val_arr


def dd_decline_duration_nb(start_idx_arr, valley_idx_arr):
    return valley_idx_arr - start_idx_arr + 1


def dd_recovery_duration_nb(valley_idx_arr, end_idx_arr):
    return end_idx_arr - valley_idx_arr


def dd_recovery_duration_ratio_nb(start_idx_arr, valley_idx_arr, end_idx_arr):
    return (end_idx_arr - valley_idx_arr) / (valley_idx_arr - start_idx_arr + 1)


def dd_recovery_return_nb(valley_val_arr, end_val_arr):
    return (end_val_arr - valley_val_arr) / valley_val_arr
