"""Reference signal and stop resolution (parsed as syntax only; never executed)."""
import numpy as np
from vectorbt.portfolio.enums import *
from vectorbt.base.reshape_fns import flex_select_auto_nb as elem


def generate_stop_signal_nb(position_now, upon_stop_exit, accumulate):
    """A hit stop closes (Close*) or reverses (Reverse*) the open position; *Reduce keeps the accumulation mode."""
    closes = upon_stop_exit == StopExitMode.Close or upon_stop_exit == StopExitMode.CloseReduce
    long_exit = position_now > 0 and closes
    short_entry = position_now > 0 and not closes
    short_exit = position_now < 0 and closes
    long_entry = position_now < 0 and not closes
    if position_now != 0 and (upon_stop_exit == StopExitMode.Close or upon_stop_exit == StopExitMode.Reverse):
        accumulate = AccumulationMode.Disabled
    return long_entry, long_exit, short_entry, short_exit, accumulate


def resolve_stop_price_and_slippage_nb(stop_price, price, close, slippage, stop_exit_price):
    if stop_exit_price == StopExitPrice.StopLimit:
        return stop_price, 0.0
    if stop_exit_price == StopExitPrice.StopMarket:
        return stop_price, slippage
    if stop_exit_price == StopExitPrice.Close:
        return close, slippage
    return price, slippage


def resolve_signal_conflict_nb(position_now, is_entry, is_exit, direction, conflict_mode):
    if not (is_entry and is_exit):
        return is_entry, is_exit
    if conflict_mode == ConflictMode.Entry:
        return True, False
    if conflict_mode == ConflictMode.Exit:
        return False, True
    if conflict_mode == ConflictMode.Adjacent or conflict_mode == ConflictMode.Opposite:
        adjacent = conflict_mode == ConflictMode.Adjacent
        if position_now == 0:
            return False, False
        if direction == Direction.Both and position_now < 0:
            # the exit is the signal in the direction of the short position
            return not adjacent, adjacent
        return adjacent, not adjacent
    return False, False


def resolve_dir_conflict_nb(position_now, is_long_entry, is_short_entry, upon_dir_conflict):
    if not (is_long_entry and is_short_entry):
        return is_long_entry, is_short_entry
    if upon_dir_conflict == DirectionConflictMode.Long:
        return True, False
    if upon_dir_conflict == DirectionConflictMode.Short:
        return False, True
    if upon_dir_conflict == DirectionConflictMode.Adjacent:
        return position_now > 0, position_now < 0
    if upon_dir_conflict == DirectionConflictMode.Opposite:
        return position_now < 0, position_now > 0
    return False, False


def resolve_opposite_entry_nb(position_now, is_long_entry, is_long_exit, is_short_entry, is_short_exit, upon_opposite_entry, accumulate):
    ignore = upon_opposite_entry == OppositeEntryMode.Ignore
    close = upon_opposite_entry == OppositeEntryMode.Close or upon_opposite_entry == OppositeEntryMode.CloseReduce
    plain = upon_opposite_entry == OppositeEntryMode.Close or upon_opposite_entry == OppositeEntryMode.Reverse
    acc = accumulate
    if position_now > 0 and is_short_entry:
        if ignore or close:
            is_short_entry = False
        if close:
            is_long_exit = True
        if plain:
            acc = AccumulationMode.Disabled
    elif position_now < 0 and is_long_entry:
        if ignore or close:
            is_long_entry = False
        if close:
            is_short_exit = True
        if plain:
            acc = AccumulationMode.Disabled
    return is_long_entry, is_long_exit, is_short_entry, is_short_exit, acc


def signals_to_size_nb(position_now, is_long_entry, is_long_exit, is_short_entry, is_short_exit, size, size_type, accumulate, val_price_now):
    """Signed size, size type and direction of the order that carries out the signals."""
    if not (size_type == SizeType.Amount or size_type == SizeType.Value or size_type == SizeType.Percent):
        raise ValueError
    if size < 0:
        raise ValueError
    adds = accumulate == AccumulationMode.Both or accumulate == AccumulationMode.AddOnly
    reduces = accumulate == AccumulationMode.Both or accumulate == AccumulationMode.RemoveOnly
    if position_now == 0:
        if is_long_entry:
            return size, size_type, Direction.Both
        if is_short_entry:
            return -size, size_type, Direction.Both
        return 0.0, size_type, Direction.Both
    if position_now > 0:
        sign, entry, exit, opposite, side = 1, is_long_entry, is_long_exit, is_short_entry, Direction.LongOnly
    else:
        sign, entry, exit, opposite, side = -1, is_short_entry, is_short_exit, is_long_entry, Direction.ShortOnly
    if opposite:
        if reduces:
            return -sign * size, size_type, Direction.Both
        if np.isnan(size):
            return -position_now, SizeType.Amount, Direction.Both
        if size_type == SizeType.Percent:
            raise ValueError
        if size_type == SizeType.Value:
            return -position_now - sign * size / val_price_now, SizeType.Amount, Direction.Both
        return -position_now - sign * size, SizeType.Amount, Direction.Both
    if exit:
        if reduces:
            return -sign * size, size_type, side
        return -position_now, SizeType.Amount, side
    if entry:
        if adds:
            return sign * size, size_type, side
        return 0.0, size_type, side
    return 0.0, size_type, Direction.Both


def should_update_stop_nb(stop, upon_stop_update):
    if upon_stop_update == StopUpdateMode.OverrideNaN:
        return True
    return upon_stop_update == StopUpdateMode.Override and not np.isnan(stop)


def get_stop_price_nb(position_now, stop_price, stop, open, low, high, hit_below):
    """Price at which the stop is hit within the bar, NaN when it is not."""
    if stop < 0:
        raise ValueError
    if position_now == 0:
        return np.nan
    if position_now > 0 and hit_below or position_now < 0 and not hit_below:
        level = stop_price * (1 - stop)
        if open <= level:
            return open
    else:
        level = stop_price * (1 + stop)
        if open >= level:
            return open
    if level >= low and level <= high:
        return level
    return np.nan


def no_signal_func_nb(c, *args):
    return False, False, False, False


def no_adjust_sl_func_nb(c, *args):
    return c.curr_stop, c.curr_trail


def no_adjust_tp_func_nb(c, *args):
    return c.curr_stop


def dir_enex_signal_func_nb(c, entries, exits, direction):
    en = elem(entries, c.i, c.col, c.flex_2d)
    ex = elem(exits, c.i, c.col, c.flex_2d)
    d = elem(direction, c.i, c.col, c.flex_2d)
    if d == Direction.LongOnly:
        return en, ex, False, False
    if d == Direction.ShortOnly:
        return False, False, en, ex
    return en, False, ex, False


def ls_enex_signal_func_nb(c, long_entries, long_exits, short_entries, short_exits):
    return (elem(long_entries, c.i, c.col, c.flex_2d), elem(long_exits, c.i, c.col, c.flex_2d),
            elem(short_entries, c.i, c.col, c.flex_2d), elem(short_exits, c.i, c.col, c.flex_2d))
