"""Reference order outcome protocol (parsed as syntax only; never executed)."""
import numpy as np
from vectorbt.portfolio.enums import *
from vectorbt.base.reshape_fns import flex_select_auto_nb
from vectorbt.portfolio.nb import buy_nb, sell_nb, execute_order_nb as execute, raise_rejected_order_nb as raise_rejected


def not_filled(status, status_info):
    return OrderResult(size=np.nan, price=np.nan, fees=np.nan, side=-1, status=status, status_info=status_info)


def down(size, granularity):
    if np.isnan(granularity):
        return size
    return size // granularity * granularity


def buy_outcome(exec_state, size, price, direction, fees, fixed_fees, slippage, min_size, max_size, size_granularity, lock_cash, allow_partial, percent):
    """(status, status information, filled size) of a buy order."""
    p = price * (1 + slippage)
    # how much cash may be spent
    limit = exec_state.cash
    if lock_cash:
        if exec_state.position >= 0:
            limit = exec_state.free_cash
        else:
            # covering releases the proceeds of the short sale and the cash locked for it
            available = exec_state.free_cash + 2 * exec_state.debt
            left = available - (-exec_state.position * p * (1 + fees) + fixed_fees)
            if left > 0:
                limit = available
            elif left < 0:
                entry = exec_state.debt / -exec_state.position
                n = (exec_state.free_cash - fixed_fees) / (p * (1 + fees) - 2 * entry)
                limit = n * p * (1 + fees) + fixed_fees
        limit = min(limit, exec_state.cash)
    if not np.isnan(percent):
        limit = min(limit, percent * limit)
    if direction == Direction.ShortOnly:
        # may only cover
        if exec_state.position == 0:
            return OrderStatus.Rejected, OrderStatusInfo.NoOpenPosition, np.nan
        want = min(-exec_state.position, size)
    else:
        if limit == 0:
            return OrderStatus.Rejected, OrderStatusInfo.NoCashLong, np.nan
        if np.isinf(size) and np.isinf(limit):
            raise ValueError
        want = size
    if want == 0:
        return OrderStatus.Ignored, OrderStatusInfo.SizeZero, np.nan
    if want > max_size:
        if not allow_partial:
            return OrderStatus.Rejected, OrderStatusInfo.MaxSizeExceeded, np.nan
        want = max_size
    want = down(want, size_granularity)
    if want * p * (1 + fees) + fixed_fees <= limit:
        filled = want
    else:
        spend = (limit - fixed_fees) / (1 + fees)
        if spend <= 0:
            return OrderStatus.Rejected, OrderStatusInfo.CantCoverFees, np.nan
        filled = down(spend / p, size_granularity)
    if want == 0:
        return OrderStatus.Ignored, OrderStatusInfo.SizeZero, np.nan
    if filled < min_size:
        return OrderStatus.Rejected, OrderStatusInfo.MinSizeNotReached, np.nan
    if np.isfinite(size) and filled < size and not allow_partial:
        return OrderStatus.Rejected, OrderStatusInfo.PartialFill, np.nan
    if filled == 0:
        return OrderStatus.Ignored, OrderStatusInfo.SizeZero, np.nan
    return OrderStatus.Filled, -1, filled


def sell_outcome(exec_state, size, price, direction, fees, fixed_fees, slippage, min_size, max_size, size_granularity, lock_cash, allow_partial, percent):
    """(status, status information, filled size) of a sell order."""
    p = price * (1 - slippage)
    everything = np.isinf(size) and not np.isnan(percent)
    if direction == Direction.LongOnly:
        want = min(exec_state.position, size)
    elif lock_cash or everything:
        # how much can be sold without locking more cash than there is
        long_size = max(exec_state.position, 0)
        free = exec_state.free_cash + long_size * p * (1 - fees)
        if free <= 0:
            if exec_state.position <= 0:
                return OrderStatus.Rejected, OrderStatusInfo.NoCashShort, np.nan
            most = long_size
        else:
            most = long_size + (free - fixed_fees) / (p * (1 + fees))
            if most <= 0:
                return OrderStatus.Rejected, OrderStatusInfo.CantCoverFees, np.nan
        if lock_cash:
            if everything:
                want = min(percent * most, most)
            elif not np.isnan(percent):
                want = min(percent * size, most)
            else:
                want = min(size, most)
            percent = np.nan
        else:
            want = most
    else:
        want = size
    if not np.isnan(percent):
        want = percent * want
    if want > max_size:
        if not allow_partial:
            return OrderStatus.Rejected, OrderStatusInfo.MaxSizeExceeded, np.nan
        want = max_size
    if direction == Direction.LongOnly:
        if exec_state.position == 0:
            return OrderStatus.Rejected, OrderStatusInfo.NoOpenPosition, np.nan
    else:
        if np.isinf(want):
            raise ValueError
    want = down(want, size_granularity)
    if want == 0:
        return OrderStatus.Ignored, OrderStatusInfo.SizeZero, np.nan
    if want < min_size:
        return OrderStatus.Rejected, OrderStatusInfo.MinSizeNotReached, np.nan
    if np.isfinite(size) and want < size and not allow_partial:
        return OrderStatus.Rejected, OrderStatusInfo.PartialFill, np.nan
    if want * p - (want * p * fees + fixed_fees) < 0:
        return OrderStatus.Rejected, OrderStatusInfo.CantCoverFees, np.nan
    return OrderStatus.Filled, -1, want


def execute_order_nb(state, order):
    account = ExecuteOrderState(cash=state.cash, position=state.position, debt=state.debt, free_cash=state.free_cash)
    if np.isnan(order.size):
        return account, not_filled(OrderStatus.Ignored, OrderStatusInfo.SizeNaN)
    if np.isnan(order.price):
        return account, not_filled(OrderStatus.Ignored, OrderStatusInfo.PriceNaN)
    # the account must be valid
    if np.isnan(state.cash) or state.cash < 0:
        raise ValueError
    if not np.isfinite(state.position):
        raise ValueError
    if not np.isfinite(state.debt) or state.debt < 0:
        raise ValueError
    if np.isnan(state.free_cash):
        raise ValueError
    # the order must be valid
    if not np.isfinite(order.price) or order.price <= 0:
        raise ValueError
    if order.size_type < 0 or order.size_type >= len(SizeType):
        raise ValueError
    if order.direction < 0 or order.direction >= len(Direction):
        raise ValueError
    if order.direction == Direction.LongOnly and state.position < 0:
        raise ValueError
    if order.direction == Direction.ShortOnly and state.position > 0:
        raise ValueError
    if not np.isfinite(order.fees):
        raise ValueError
    if not np.isfinite(order.fixed_fees):
        raise ValueError
    if not np.isfinite(order.slippage) or order.slippage < 0:
        raise ValueError
    if not np.isfinite(order.min_size) or order.min_size < 0:
        raise ValueError
    if np.isnan(order.max_size) or order.max_size <= 0:
        raise ValueError
    if np.isinf(order.size_granularity) or order.size_granularity <= 0:
        raise ValueError
    if not np.isfinite(order.reject_prob) or order.reject_prob < 0 or order.reject_prob > 1:
        raise ValueError
    # requested amount of shares, negative means selling
    size = order.size
    if order.direction == Direction.ShortOnly:
        size = -size
    kind = order.size_type
    if kind == SizeType.TargetPercent:
        if np.isnan(state.value):
            return account, not_filled(OrderStatus.Ignored, OrderStatusInfo.ValueNaN)
        if state.value <= 0:
            return account, not_filled(OrderStatus.Rejected, OrderStatusInfo.ValueZeroNeg)
        size = size * state.value
    if kind == SizeType.Value or kind == SizeType.TargetValue or kind == SizeType.TargetPercent:
        if np.isinf(state.val_price) or state.val_price <= 0:
            raise ValueError
        if np.isnan(state.val_price):
            return account, not_filled(OrderStatus.Ignored, OrderStatusInfo.ValPriceNaN)
        size = size / state.val_price
    if kind == SizeType.TargetAmount or kind == SizeType.TargetValue or kind == SizeType.TargetPercent:
        size = size - state.position
    percent = np.nan
    if kind == SizeType.Percent:
        percent = abs(size)
        size = np.sign(size) * np.inf
    elif order.direction != Direction.LongOnly and size < 0 and np.isinf(size):
        # selling infinitely: as much as there is
        percent = abs(-1.0)
        size = np.sign(-1.0) * np.inf
    if size > 0:
        new_account, result = buy_nb(account, size, order.price, direction=order.direction, fees=order.fees, fixed_fees=order.fixed_fees,
                                     slippage=order.slippage, min_size=order.min_size, max_size=order.max_size,
                                     size_granularity=order.size_granularity, lock_cash=order.lock_cash, allow_partial=order.allow_partial,
                                     percent=percent)
    else:
        new_account, result = sell_nb(account, -size, order.price, direction=order.direction, fees=order.fees, fixed_fees=order.fixed_fees,
                                      slippage=order.slippage, min_size=order.min_size, max_size=order.max_size,
                                      size_granularity=order.size_granularity, lock_cash=order.lock_cash, allow_partial=order.allow_partial,
                                      percent=percent)
    if order.reject_prob > 0:
        if np.random.uniform(0, 1) < order.reject_prob:
            return account, not_filled(OrderStatus.Rejected, OrderStatusInfo.RandomEvent)
    return new_account, result


def process_order_nb(i, col, group, state, update_value, order, order_records, log_records):
    account, result = execute(state, order)
    if result.status == OrderStatus.Rejected and order.raise_reject:
        raise_rejected(result)
    filled = result.status == OrderStatus.Filled
    val_price = state.val_price
    value = state.value
    if filled and update_value:
        val_price = result.price
        value = state.value + (account.cash - state.cash) + account.position * result.price - state.position * state.val_price
    oidx = state.oidx
    if filled:
        if state.oidx >= len(order_records):
            raise IndexError
        record = order_records[state.oidx]
        record["id"] = state.oidx
        record["col"] = col
        record["idx"] = i
        record["size"] = result.size
        record["price"] = result.price
        record["fees"] = result.fees
        record["side"] = result.side
        oidx = state.oidx + 1
    lidx = state.lidx
    if order.log:
        if state.lidx >= len(log_records):
            raise IndexError
        record = log_records[state.lidx]
        record["id"] = state.lidx
        record["group"] = group
        record["col"] = col
        record["idx"] = i
        record["cash"] = state.cash
        record["position"] = state.position
        record["debt"] = state.debt
        record["free_cash"] = state.free_cash
        record["val_price"] = state.val_price
        record["value"] = state.value
        record["req_size"] = order.size
        record["req_price"] = order.price
        record["req_size_type"] = order.size_type
        record["req_direction"] = order.direction
        record["req_fees"] = order.fees
        record["req_fixed_fees"] = order.fixed_fees
        record["req_slippage"] = order.slippage
        record["req_min_size"] = order.min_size
        record["req_max_size"] = order.max_size
        record["req_size_granularity"] = order.size_granularity
        record["req_reject_prob"] = order.reject_prob
        record["req_lock_cash"] = order.lock_cash
        record["req_allow_partial"] = order.allow_partial
        record["req_raise_reject"] = order.raise_reject
        record["req_log"] = order.log
        record["new_cash"] = account.cash
        record["new_position"] = account.position
        record["new_debt"] = account.debt
        record["new_free_cash"] = account.free_cash
        record["new_val_price"] = val_price
        record["new_value"] = value
        record["res_size"] = result.size
        record["res_price"] = result.price
        record["res_fees"] = result.fees
        record["res_side"] = result.side
        record["res_status"] = result.status
        record["res_status_info"] = result.status_info
        if filled:
            record["order_id"] = state.oidx
        else:
            record["order_id"] = -1
        lidx = state.lidx + 1
    return result, ProcessOrderState(cash=account.cash, position=account.position, debt=account.debt, free_cash=account.free_cash,
                                     val_price=val_price, value=value, oidx=oidx, lidx=lidx)


def order_nb(size=np.nan, price=np.inf, size_type=SizeType.Amount, direction=Direction.Both, fees=0.0, fixed_fees=0.0, slippage=0.0,
             min_size=0.0, max_size=np.inf, size_granularity=np.nan, reject_prob=0.0, lock_cash=False, allow_partial=True, raise_reject=False,
             log=False):
    return Order(size=size, price=price, size_type=size_type, direction=direction, fees=fees, fixed_fees=fixed_fees, slippage=slippage,
                 min_size=min_size, max_size=max_size, size_granularity=size_granularity, reject_prob=reject_prob, lock_cash=lock_cash,
                 allow_partial=allow_partial, raise_reject=raise_reject, log=log)


def close_position_nb(price=np.inf, fees=0.0, fixed_fees=0.0, slippage=0.0, min_size=0.0, max_size=np.inf, size_granularity=np.nan,
                      reject_prob=0.0, lock_cash=False, allow_partial=True, raise_reject=False, log=False):
    return Order(size=0.0, price=price, size_type=SizeType.TargetAmount, direction=Direction.Both, fees=fees, fixed_fees=fixed_fees,
                 slippage=slippage, min_size=min_size, max_size=max_size, size_granularity=size_granularity, reject_prob=reject_prob,
                 lock_cash=lock_cash, allow_partial=allow_partial, raise_reject=raise_reject, log=log)


def order_nothing_nb():
    return NoOrder


def with_price(order, price):
    return Order(size=order.size, price=price, size_type=order.size_type, direction=order.direction, fees=order.fees,
                 fixed_fees=order.fixed_fees, slippage=order.slippage, min_size=order.min_size, max_size=order.max_size,
                 size_granularity=order.size_granularity, reject_prob=order.reject_prob, lock_cash=order.lock_cash,
                 allow_partial=order.allow_partial, raise_reject=order.raise_reject, log=order.log)


def replace_inf_price_nb(prev_close, close, order):
    return with_price(order, close if order.price > 0 else prev_close)


def try_order_nb(ctx, order):
    state = ProcessOrderState(cash=ctx.cash_now, position=ctx.position_now, debt=ctx.debt_now, free_cash=ctx.free_cash_now,
                              val_price=ctx.val_price_now, value=ctx.value_now, oidx=-1, lidx=-1)
    if np.isinf(order.price):
        if order.price > 0:
            order = with_price(order, flex_select_auto_nb(ctx.close, ctx.i, ctx.col, ctx.flex_2d))
        elif ctx.i > 0:
            order = with_price(order, flex_select_auto_nb(ctx.close, ctx.i - 1, ctx.col, ctx.flex_2d))
        else:
            order = with_price(order, np.nan)
    return execute(state, order)


def raise_rejected_order_nb(order_result):
    raise RejectedOrderError
