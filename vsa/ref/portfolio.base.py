"""Reviewed reference definitions of vectorbt.portfolio.base (functions as name__ref, methods as name__of__Class)."""
import warnings
import numpy as np
import pandas as pd
from vectorbt import _typing as tp
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
from vectorbt.base.reshape_fns import to_1d_array, to_2d_array, broadcast, broadcast_to, to_pd_array
from vectorbt.generic.drawdowns import Drawdowns
from vectorbt.generic.plots_builder import PlotsBuilderMixin
from vectorbt.generic.stats_builder import StatsBuilderMixin
from vectorbt.portfolio import dispatch, nb
from vectorbt.portfolio.decorators import attach_returns_acc_methods
from vectorbt.portfolio.enums import *
from vectorbt.portfolio.logs import Logs
from vectorbt.portfolio.orders import Orders
from vectorbt.portfolio.trades import Trades, EntryTrades, ExitTrades, Positions
from vectorbt.returns import dispatch as returns_dispatch
from vectorbt.returns.accessors import ReturnsAccessor
from vectorbt.signals.generators import RANDNX, RPROBNX
from vectorbt.utils import checks
from vectorbt.utils.colors import adjust_opacity
from vectorbt.utils.config import merge_dicts, Config
from vectorbt.utils.decorators import cached_property, cached_method
from vectorbt.utils.enum_ import map_enum_fields
from vectorbt.utils.figure import get_domain
from vectorbt.utils.random_ import set_seed
from vectorbt.utils.template import RepEval, deep_substitute
from vectorbt.portfolio.base import QSAdapterT, returns_acc_config, PortfolioT, MetaPortfolio, Portfolio


def returns_acc_config__decl():
    return Config({'daily_returns': dict(source_name='daily'), 'annual_returns': dict(source_name='annual'), 'cumulative_returns': dict(source_name='cumulative'), 'annualized_return': dict(source_name='annualized'), 'annualized_volatility': dict(), 'calmar_ratio': dict(), 'omega_ratio': dict(), 'sharpe_ratio': dict(), 'deflated_sharpe_ratio': dict(), 'downside_risk': dict(), 'sortino_ratio': dict(), 'information_ratio': dict(), 'beta': dict(), 'alpha': dict(), 'tail_ratio': dict(), 'value_at_risk': dict(), 'cond_value_at_risk': dict(), 'capture': dict(), 'up_capture': dict(), 'down_capture': dict(), 'drawdown': dict(), 'max_drawdown': dict()}, readonly=True, as_attrs=False)


def __init____of__Portfolio(self, wrapper, close, order_records, log_records, init_cash, cash_sharing, call_seq=None, fillna_close=None, trades_type=None, engine=None):
    Wrapping.__init__(self, wrapper, close=close, order_records=order_records, log_records=log_records, init_cash=init_cash, cash_sharing=cash_sharing, call_seq=call_seq, fillna_close=fillna_close, trades_type=trades_type, engine=engine)
    StatsBuilderMixin.__init__(self)
    PlotsBuilderMixin.__init__(self)
    from vectorbt._settings import settings
    portfolio_cfg = settings['portfolio']
    if fillna_close is None:
        fillna_close = portfolio_cfg['fillna_close']
    if trades_type is None:
        trades_type = portfolio_cfg['trades_type']
    if isinstance(trades_type, str):
        trades_type = map_enum_fields(trades_type, TradesType)
    self._close = broadcast_to(close, wrapper.dummy(group_by=False))
    self._order_records = order_records
    self._log_records = log_records
    self._init_cash = init_cash
    self._cash_sharing = cash_sharing
    self._call_seq = call_seq
    self._fillna_close = fillna_close
    self._trades_type = trades_type
    self._engine = engine


def engine__of__Portfolio(self):
    return self._engine


def indexing_func__of__Portfolio(self, pd_indexing_func, **kwargs):
    new_wrapper, _, group_idxs, col_idxs = self.wrapper.indexing_func_meta(pd_indexing_func, column_only_select=True, **kwargs)
    new_close = new_wrapper.wrap(to_2d_array(self.close)[:, col_idxs], group_by=False)
    new_order_records = self.orders.get_by_col_idxs(col_idxs)
    new_log_records = self.logs.get_by_col_idxs(col_idxs)
    if isinstance(self._init_cash, int):
        new_init_cash = self._init_cash
    else:
        new_init_cash = to_1d_array(self._init_cash)[group_idxs if self.cash_sharing else col_idxs]
    if self.call_seq is not None:
        new_call_seq = self.call_seq.values[:, col_idxs]
    else:
        new_call_seq = None
    return self.replace(wrapper=new_wrapper, close=new_close, order_records=new_order_records, log_records=new_log_records, init_cash=new_init_cash, call_seq=new_call_seq)


@classmethod
def from_orders__of__Portfolio(cls, close, size=None, size_type=None, direction=None, price=None, fees=None, fixed_fees=None, slippage=None, min_size=None, max_size=None, size_granularity=None, reject_prob=None, lock_cash=None, allow_partial=None, raise_reject=None, log=None, val_price=None, init_cash=None, cash_sharing=None, call_seq=None, ffill_val_price=None, update_value=None, max_orders=None, max_logs=None, init_temp_records=None, seed=None, group_by=None, broadcast_kwargs=None, wrapper_kwargs=None, freq=None, attach_call_seq=None, engine=None, **kwargs):
    from vectorbt._settings import settings
    portfolio_cfg = settings['portfolio']
    if size is None:
        size = portfolio_cfg['size']
    if size_type is None:
        size_type = portfolio_cfg['size_type']
    size_type = map_enum_fields(size_type, SizeType)
    if direction is None:
        direction = portfolio_cfg['order_direction']
    direction = map_enum_fields(direction, Direction)
    if price is None:
        price = np.inf
    if size is None:
        size = portfolio_cfg['size']
    if fees is None:
        fees = portfolio_cfg['fees']
    if fixed_fees is None:
        fixed_fees = portfolio_cfg['fixed_fees']
    if slippage is None:
        slippage = portfolio_cfg['slippage']
    if min_size is None:
        min_size = portfolio_cfg['min_size']
    if max_size is None:
        max_size = portfolio_cfg['max_size']
    if size_granularity is None:
        size_granularity = portfolio_cfg['size_granularity']
    if reject_prob is None:
        reject_prob = portfolio_cfg['reject_prob']
    if lock_cash is None:
        lock_cash = portfolio_cfg['lock_cash']
    if allow_partial is None:
        allow_partial = portfolio_cfg['allow_partial']
    if raise_reject is None:
        raise_reject = portfolio_cfg['raise_reject']
    if log is None:
        log = portfolio_cfg['log']
    if val_price is None:
        val_price = portfolio_cfg['val_price']
    if init_cash is None:
        init_cash = portfolio_cfg['init_cash']
    if isinstance(init_cash, str):
        init_cash = map_enum_fields(init_cash, InitCashMode)
    if isinstance(init_cash, int) and init_cash in InitCashMode:
        init_cash_mode = init_cash
        init_cash = np.inf
    else:
        init_cash_mode = None
    if cash_sharing is None:
        cash_sharing = portfolio_cfg['cash_sharing']
    if cash_sharing and group_by is None:
        group_by = True
    if call_seq is None:
        call_seq = portfolio_cfg['call_seq']
    auto_call_seq = False
    if isinstance(call_seq, str):
        call_seq = map_enum_fields(call_seq, CallSeqType)
    if isinstance(call_seq, int):
        if call_seq == CallSeqType.Auto:
            call_seq = CallSeqType.Default
            auto_call_seq = True
    if ffill_val_price is None:
        ffill_val_price = portfolio_cfg['ffill_val_price']
    if update_value is None:
        update_value = portfolio_cfg['update_value']
    if init_temp_records is None:
        init_temp_records = portfolio_cfg['init_temp_records']
    if seed is None:
        seed = portfolio_cfg['seed']
    if seed is not None:
        set_seed(seed)
    if freq is None:
        freq = portfolio_cfg['freq']
    if attach_call_seq is None:
        attach_call_seq = portfolio_cfg['attach_call_seq']
    if broadcast_kwargs is None:
        broadcast_kwargs = {}
    if wrapper_kwargs is None:
        wrapper_kwargs = {}
    if not wrapper_kwargs.get('group_select', True) and cash_sharing:
        raise ValueError('group_select cannot be disabled if cash_sharing=True')
    broadcastable_args = (size, price, size_type, direction, fees, fixed_fees, slippage, min_size, max_size, size_granularity, reject_prob, lock_cash, allow_partial, raise_reject, log, val_price, close)
    keep_raw = [True] * len(broadcastable_args)
    keep_raw[-1] = False
    broadcast_kwargs = merge_dicts(dict(keep_raw=keep_raw, require_kwargs=dict(requirements='W')), broadcast_kwargs)
    broadcasted_args = broadcast(*broadcastable_args, **broadcast_kwargs)
    close = broadcasted_args[-1]
    if not checks.is_pandas(close):
        close = pd.Series(close) if close.ndim == 1 else pd.DataFrame(close)
    target_shape_2d = (close.shape[0], close.shape[1] if close.ndim > 1 else 1)
    wrapper = ArrayWrapper.from_obj(close, freq=freq, group_by=group_by, **wrapper_kwargs)
    cs_group_lens = wrapper.grouper.get_group_lens(group_by=None if cash_sharing else False)
    init_cash = np.require(np.broadcast_to(init_cash, (len(cs_group_lens),)), dtype=np.float64)
    group_lens = wrapper.grouper.get_group_lens(group_by=group_by)
    if checks.is_any_array(call_seq):
        call_seq = nb.require_call_seq(broadcast(call_seq, to_shape=target_shape_2d, to_pd=False))
    else:
        call_seq = nb.build_call_seq(target_shape_2d, group_lens, call_seq_type=call_seq)
    if max_orders is None:
        max_orders = target_shape_2d[0] * target_shape_2d[1]
    if max_logs is None:
        max_logs = target_shape_2d[0] * target_shape_2d[1]
    if not np.any(log):
        max_logs = 1
    order_records, log_records = dispatch.simulate_from_orders(target_shape_2d, cs_group_lens, init_cash, call_seq, *map(np.asarray, broadcasted_args), auto_call_seq=auto_call_seq, ffill_val_price=ffill_val_price, update_value=update_value, max_orders=max_orders, max_logs=max_logs, init_temp_records=init_temp_records, flex_2d=close.ndim == 2, engine=engine)
    return cls(wrapper, close, order_records, log_records, init_cash if init_cash_mode is None else init_cash_mode, cash_sharing, call_seq=call_seq if attach_call_seq else None, engine=engine, **kwargs)


@classmethod
def from_signals__of__Portfolio(cls, close, entries=None, exits=None, short_entries=None, short_exits=None, signal_func_nb=nb.no_signal_func_nb, signal_args=(), size=None, size_type=None, price=None, fees=None, fixed_fees=None, slippage=None, min_size=None, max_size=None, size_granularity=None, reject_prob=None, lock_cash=None, allow_partial=None, raise_reject=None, log=None, accumulate=None, upon_long_conflict=None, upon_short_conflict=None, upon_dir_conflict=None, upon_opposite_entry=None, direction=None, val_price=None, open=None, high=None, low=None, sl_stop=None, sl_trail=None, tp_stop=None, stop_entry_price=None, stop_exit_price=None, upon_stop_exit=None, upon_stop_update=None, adjust_sl_func_nb=nb.no_adjust_sl_func_nb, adjust_sl_args=(), adjust_tp_func_nb=nb.no_adjust_tp_func_nb, adjust_tp_args=(), use_stops=None, init_cash=None, cash_sharing=None, call_seq=None, ffill_val_price=None, update_value=None, max_orders=None, max_logs=None, init_temp_records=None, seed=None, group_by=None, broadcast_named_args=None, broadcast_kwargs=None, template_mapping=None, wrapper_kwargs=None, freq=None, attach_call_seq=None, engine=None, **kwargs):
    from vectorbt._settings import settings
    portfolio_cfg = settings['portfolio']
    ls_mode = short_entries is not None or short_exits is not None
    signal_func_mode = signal_func_nb is not nb.no_signal_func_nb
    if (entries is not None or exits is not None or ls_mode) and signal_func_mode:
        raise ValueError('Either any of the signal arrays or signal_func_nb should be set, not both')
    if entries is None:
        if exits is None and (not ls_mode):
            entries = True
        else:
            entries = False
    if exits is None:
        exits = False
    if short_entries is None:
        short_entries = False
    if short_exits is None:
        short_exits = False
    if signal_func_nb is nb.no_signal_func_nb:
        if ls_mode:
            signal_func_nb = nb.ls_enex_signal_func_nb
        else:
            signal_func_nb = nb.dir_enex_signal_func_nb
    if size is None:
        size = portfolio_cfg['size']
    if size_type is None:
        size_type = portfolio_cfg['size_type']
    size_type = map_enum_fields(size_type, SizeType)
    if price is None:
        price = np.inf
    if fees is None:
        fees = portfolio_cfg['fees']
    if fixed_fees is None:
        fixed_fees = portfolio_cfg['fixed_fees']
    if slippage is None:
        slippage = portfolio_cfg['slippage']
    if min_size is None:
        min_size = portfolio_cfg['min_size']
    if max_size is None:
        max_size = portfolio_cfg['max_size']
    if size_granularity is None:
        size_granularity = portfolio_cfg['size_granularity']
    if reject_prob is None:
        reject_prob = portfolio_cfg['reject_prob']
    if lock_cash is None:
        lock_cash = portfolio_cfg['lock_cash']
    if allow_partial is None:
        allow_partial = portfolio_cfg['allow_partial']
    if raise_reject is None:
        raise_reject = portfolio_cfg['raise_reject']
    if log is None:
        log = portfolio_cfg['log']
    if accumulate is None:
        accumulate = portfolio_cfg['accumulate']
    accumulate = map_enum_fields(accumulate, AccumulationMode, ignore_type=(int, bool))
    if upon_long_conflict is None:
        upon_long_conflict = portfolio_cfg['upon_long_conflict']
    upon_long_conflict = map_enum_fields(upon_long_conflict, ConflictMode)
    if upon_short_conflict is None:
        upon_short_conflict = portfolio_cfg['upon_short_conflict']
    upon_short_conflict = map_enum_fields(upon_short_conflict, ConflictMode)
    if upon_dir_conflict is None:
        upon_dir_conflict = portfolio_cfg['upon_dir_conflict']
    upon_dir_conflict = map_enum_fields(upon_dir_conflict, DirectionConflictMode)
    if upon_opposite_entry is None:
        upon_opposite_entry = portfolio_cfg['upon_opposite_entry']
    upon_opposite_entry = map_enum_fields(upon_opposite_entry, OppositeEntryMode)
    if direction is not None and ls_mode:
        warnings.warn('direction has no effect if short_entries and short_exits are set', stacklevel=2)
    if direction is None:
        direction = portfolio_cfg['signal_direction']
    direction = map_enum_fields(direction, Direction)
    if val_price is None:
        val_price = portfolio_cfg['val_price']
    if open is None:
        open = np.nan
    if high is None:
        high = np.nan
    if low is None:
        low = np.nan
    if sl_stop is None:
        sl_stop = portfolio_cfg['sl_stop']
    if sl_trail is None:
        sl_trail = portfolio_cfg['sl_trail']
    if tp_stop is None:
        tp_stop = portfolio_cfg['tp_stop']
    if stop_entry_price is None:
        stop_entry_price = portfolio_cfg['stop_entry_price']
    stop_entry_price = map_enum_fields(stop_entry_price, StopEntryPrice)
    if stop_exit_price is None:
        stop_exit_price = portfolio_cfg['stop_exit_price']
    stop_exit_price = map_enum_fields(stop_exit_price, StopExitPrice)
    if upon_stop_exit is None:
        upon_stop_exit = portfolio_cfg['upon_stop_exit']
    upon_stop_exit = map_enum_fields(upon_stop_exit, StopExitMode)
    if upon_stop_update is None:
        upon_stop_update = portfolio_cfg['upon_stop_update']
    upon_stop_update = map_enum_fields(upon_stop_update, StopUpdateMode)
    if use_stops is None:
        use_stops = portfolio_cfg['use_stops']
    if use_stops is None:
        if isinstance(sl_stop, float) and np.isnan(sl_stop) and isinstance(tp_stop, float) and np.isnan(tp_stop) and (adjust_sl_func_nb == nb.no_adjust_sl_func_nb) and (adjust_tp_func_nb == nb.no_adjust_tp_func_nb):
            use_stops = False
        else:
            use_stops = True
    if init_cash is None:
        init_cash = portfolio_cfg['init_cash']
    if isinstance(init_cash, str):
        init_cash = map_enum_fields(init_cash, InitCashMode)
    if isinstance(init_cash, int) and init_cash in InitCashMode:
        init_cash_mode = init_cash
        init_cash = np.inf
    else:
        init_cash_mode = None
    if cash_sharing is None:
        cash_sharing = portfolio_cfg['cash_sharing']
    if cash_sharing and group_by is None:
        group_by = True
    if call_seq is None:
        call_seq = portfolio_cfg['call_seq']
    auto_call_seq = False
    if isinstance(call_seq, str):
        call_seq = map_enum_fields(call_seq, CallSeqType)
    if isinstance(call_seq, int):
        if call_seq == CallSeqType.Auto:
            call_seq = CallSeqType.Default
            auto_call_seq = True
    if ffill_val_price is None:
        ffill_val_price = portfolio_cfg['ffill_val_price']
    if update_value is None:
        update_value = portfolio_cfg['update_value']
    if init_temp_records is None:
        init_temp_records = portfolio_cfg['init_temp_records']
    if seed is None:
        seed = portfolio_cfg['seed']
    if seed is not None:
        set_seed(seed)
    if freq is None:
        freq = portfolio_cfg['freq']
    if attach_call_seq is None:
        attach_call_seq = portfolio_cfg['attach_call_seq']
    if broadcast_named_args is None:
        broadcast_named_args = {}
    if broadcast_kwargs is None:
        broadcast_kwargs = {}
    if template_mapping is None:
        template_mapping = {}
    if wrapper_kwargs is None:
        wrapper_kwargs = {}
    if not wrapper_kwargs.get('group_select', True) and cash_sharing:
        raise ValueError('group_select cannot be disabled if cash_sharing=True')
    broadcastable_args = dict(size=size, price=price, size_type=size_type, fees=fees, fixed_fees=fixed_fees, slippage=slippage, min_size=min_size, max_size=max_size, size_granularity=size_granularity, reject_prob=reject_prob, lock_cash=lock_cash, allow_partial=allow_partial, raise_reject=raise_reject, log=log, accumulate=accumulate, upon_long_conflict=upon_long_conflict, upon_short_conflict=upon_short_conflict, upon_dir_conflict=upon_dir_conflict, upon_opposite_entry=upon_opposite_entry, val_price=val_price, open=open, high=high, low=low, close=close, sl_stop=sl_stop, sl_trail=sl_trail, tp_stop=tp_stop, stop_entry_price=stop_entry_price, stop_exit_price=stop_exit_price, upon_stop_exit=upon_stop_exit, upon_stop_update=upon_stop_update)
    if not signal_func_mode:
        if ls_mode:
            broadcastable_args['entries'] = entries
            broadcastable_args['exits'] = exits
            broadcastable_args['short_entries'] = short_entries
            broadcastable_args['short_exits'] = short_exits
        else:
            broadcastable_args['entries'] = entries
            broadcastable_args['exits'] = exits
            broadcastable_args['direction'] = direction
    broadcastable_args = {**broadcastable_args, **broadcast_named_args}
    close_idx = list(broadcastable_args.keys()).index('close')
    keep_raw = [True] * len(broadcastable_args)
    keep_raw[close_idx] = False
    broadcast_kwargs = merge_dicts(dict(keep_raw=keep_raw, require_kwargs=dict(requirements='W')), broadcast_kwargs)
    broadcasted_args = broadcast(*broadcastable_args.values(), **broadcast_kwargs)
    broadcasted_args = dict(zip(broadcastable_args.keys(), broadcasted_args))
    close = broadcasted_args['close']
    if not checks.is_pandas(close):
        close = pd.Series(close) if close.ndim == 1 else pd.DataFrame(close)
    broadcasted_args['close'] = to_2d_array(close)
    target_shape_2d = (close.shape[0], close.shape[1] if close.ndim > 1 else 1)
    wrapper = ArrayWrapper.from_obj(close, freq=freq, group_by=group_by, **wrapper_kwargs)
    cs_group_lens = wrapper.grouper.get_group_lens(group_by=None if cash_sharing else False)
    init_cash = np.require(np.broadcast_to(init_cash, (len(cs_group_lens),)), dtype=np.float64)
    group_lens = wrapper.grouper.get_group_lens(group_by=group_by)
    if checks.is_any_array(call_seq):
        call_seq = nb.require_call_seq(broadcast(call_seq, to_shape=target_shape_2d, to_pd=False))
    else:
        call_seq = nb.build_call_seq(target_shape_2d, group_lens, call_seq_type=call_seq)
    if max_orders is None:
        max_orders = target_shape_2d[0] * target_shape_2d[1]
    if max_logs is None:
        max_logs = target_shape_2d[0] * target_shape_2d[1]
    if not np.any(log):
        max_logs = 1
    template_mapping = {**broadcasted_args, **dict(target_shape=target_shape_2d, group_lens=cs_group_lens, init_cash=init_cash, call_seq=call_seq, adjust_sl_func_nb=adjust_sl_func_nb, adjust_sl_args=adjust_sl_args, adjust_tp_func_nb=adjust_tp_func_nb, adjust_tp_args=adjust_tp_args, use_stops=use_stops, auto_call_seq=auto_call_seq, ffill_val_price=ffill_val_price, update_value=update_value, max_orders=max_orders, max_logs=max_logs, init_temp_records=init_temp_records, flex_2d=close.ndim == 2, wrapper=wrapper), **template_mapping}
    adjust_sl_args = deep_substitute(adjust_sl_args, template_mapping)
    adjust_tp_args = deep_substitute(adjust_tp_args, template_mapping)
    if signal_func_mode:
        signal_args = deep_substitute(signal_args, template_mapping)
    elif ls_mode:
        signal_args = (broadcasted_args['entries'], broadcasted_args['exits'], broadcasted_args['short_entries'], broadcasted_args['short_exits'])
    else:
        signal_args = (broadcasted_args['entries'], broadcasted_args['exits'], broadcasted_args['direction'])
    checks.assert_numba_func(signal_func_nb)
    checks.assert_numba_func(adjust_sl_func_nb)
    checks.assert_numba_func(adjust_tp_func_nb)
    can_use_static = not signal_func_mode and adjust_sl_func_nb is nb.no_adjust_sl_func_nb and (adjust_tp_func_nb is nb.no_adjust_tp_func_nb)
    if can_use_static:
        if ls_mode:
            order_records, log_records = dispatch.simulate_from_signals(target_shape_2d, cs_group_lens, init_cash, call_seq, entries=np.asarray(False), exits=np.asarray(False), direction=np.asarray(Direction.LongOnly), long_entries=broadcasted_args['entries'], long_exits=broadcasted_args['exits'], short_entries=broadcasted_args['short_entries'], short_exits=broadcasted_args['short_exits'], size=broadcasted_args['size'], price=broadcasted_args['price'], size_type=broadcasted_args['size_type'], fees=broadcasted_args['fees'], fixed_fees=broadcasted_args['fixed_fees'], slippage=broadcasted_args['slippage'], min_size=broadcasted_args['min_size'], max_size=broadcasted_args['max_size'], size_granularity=broadcasted_args['size_granularity'], reject_prob=broadcasted_args['reject_prob'], lock_cash=broadcasted_args['lock_cash'], allow_partial=broadcasted_args['allow_partial'], raise_reject=broadcasted_args['raise_reject'], log=broadcasted_args['log'], accumulate=broadcasted_args['accumulate'], upon_long_conflict=broadcasted_args['upon_long_conflict'], upon_short_conflict=broadcasted_args['upon_short_conflict'], upon_dir_conflict=broadcasted_args['upon_dir_conflict'], upon_opposite_entry=broadcasted_args['upon_opposite_entry'], val_price=broadcasted_args['val_price'], open=broadcasted_args['open'], high=broadcasted_args['high'], low=broadcasted_args['low'], close=broadcasted_args['close'], sl_stop=broadcasted_args['sl_stop'], sl_trail=broadcasted_args['sl_trail'], tp_stop=broadcasted_args['tp_stop'], stop_entry_price=broadcasted_args['stop_entry_price'], stop_exit_price=broadcasted_args['stop_exit_price'], upon_stop_exit=broadcasted_args['upon_stop_exit'], upon_stop_update=broadcasted_args['upon_stop_update'], use_stops=use_stops, auto_call_seq=auto_call_seq, ffill_val_price=ffill_val_price, update_value=update_value, max_orders=max_orders, max_logs=max_logs, init_temp_records=init_temp_records, flex_2d=close.ndim == 2, seed=seed, engine=engine)
        else:
            order_records, log_records = dispatch.simulate_from_signals(target_shape_2d, cs_group_lens, init_cash, call_seq, entries=broadcasted_args['entries'], exits=broadcasted_args['exits'], direction=broadcasted_args['direction'], long_entries=np.asarray(False), long_exits=np.asarray(False), short_entries=np.asarray(False), short_exits=np.asarray(False), size=broadcasted_args['size'], price=broadcasted_args['price'], size_type=broadcasted_args['size_type'], fees=broadcasted_args['fees'], fixed_fees=broadcasted_args['fixed_fees'], slippage=broadcasted_args['slippage'], min_size=broadcasted_args['min_size'], max_size=broadcasted_args['max_size'], size_granularity=broadcasted_args['size_granularity'], reject_prob=broadcasted_args['reject_prob'], lock_cash=broadcasted_args['lock_cash'], allow_partial=broadcasted_args['allow_partial'], raise_reject=broadcasted_args['raise_reject'], log=broadcasted_args['log'], accumulate=broadcasted_args['accumulate'], upon_long_conflict=broadcasted_args['upon_long_conflict'], upon_short_conflict=broadcasted_args['upon_short_conflict'], upon_dir_conflict=broadcasted_args['upon_dir_conflict'], upon_opposite_entry=broadcasted_args['upon_opposite_entry'], val_price=broadcasted_args['val_price'], open=broadcasted_args['open'], high=broadcasted_args['high'], low=broadcasted_args['low'], close=broadcasted_args['close'], sl_stop=broadcasted_args['sl_stop'], sl_trail=broadcasted_args['sl_trail'], tp_stop=broadcasted_args['tp_stop'], stop_entry_price=broadcasted_args['stop_entry_price'], stop_exit_price=broadcasted_args['stop_exit_price'], upon_stop_exit=broadcasted_args['upon_stop_exit'], upon_stop_update=broadcasted_args['upon_stop_update'], use_stops=use_stops, auto_call_seq=auto_call_seq, ffill_val_price=ffill_val_price, update_value=update_value, max_orders=max_orders, max_logs=max_logs, init_temp_records=init_temp_records, flex_2d=close.ndim == 2, seed=seed, engine=engine)
    else:
        order_records, log_records = nb.simulate_from_signal_func_nb(target_shape_2d, cs_group_lens, init_cash, call_seq, signal_func_nb=signal_func_nb, signal_args=signal_args, size=broadcasted_args['size'], price=broadcasted_args['price'], size_type=broadcasted_args['size_type'], fees=broadcasted_args['fees'], fixed_fees=broadcasted_args['fixed_fees'], slippage=broadcasted_args['slippage'], min_size=broadcasted_args['min_size'], max_size=broadcasted_args['max_size'], size_granularity=broadcasted_args['size_granularity'], reject_prob=broadcasted_args['reject_prob'], lock_cash=broadcasted_args['lock_cash'], allow_partial=broadcasted_args['allow_partial'], raise_reject=broadcasted_args['raise_reject'], log=broadcasted_args['log'], accumulate=broadcasted_args['accumulate'], upon_long_conflict=broadcasted_args['upon_long_conflict'], upon_short_conflict=broadcasted_args['upon_short_conflict'], upon_dir_conflict=broadcasted_args['upon_dir_conflict'], upon_opposite_entry=broadcasted_args['upon_opposite_entry'], val_price=broadcasted_args['val_price'], open=broadcasted_args['open'], high=broadcasted_args['high'], low=broadcasted_args['low'], close=broadcasted_args['close'], sl_stop=broadcasted_args['sl_stop'], sl_trail=broadcasted_args['sl_trail'], tp_stop=broadcasted_args['tp_stop'], stop_entry_price=broadcasted_args['stop_entry_price'], stop_exit_price=broadcasted_args['stop_exit_price'], upon_stop_exit=broadcasted_args['upon_stop_exit'], upon_stop_update=broadcasted_args['upon_stop_update'], adjust_sl_func_nb=adjust_sl_func_nb, adjust_sl_args=adjust_sl_args, adjust_tp_func_nb=adjust_tp_func_nb, adjust_tp_args=adjust_tp_args, use_stops=use_stops, auto_call_seq=auto_call_seq, ffill_val_price=ffill_val_price, update_value=update_value, max_orders=max_orders, max_logs=max_logs, init_temp_records=init_temp_records, flex_2d=close.ndim == 2)
    return cls(wrapper, close, order_records, log_records, init_cash if init_cash_mode is None else init_cash_mode, cash_sharing, call_seq=call_seq if attach_call_seq else None, engine=engine, **kwargs)


@classmethod
def from_holding__of__Portfolio(cls, close, **kwargs):
    return cls.from_signals(close, entries=True, exits=False, **kwargs)


@classmethod
def from_random_signals__of__Portfolio(cls, close, n=None, prob=None, entry_prob=None, exit_prob=None, param_product=False, seed=None, run_kwargs=None, **kwargs):
    from vectorbt._settings import settings
    portfolio_cfg = settings['portfolio']
    close = to_pd_array(close)
    close_wrapper = ArrayWrapper.from_obj(close)
    if entry_prob is None:
        entry_prob = prob
    if exit_prob is None:
        exit_prob = prob
    if seed is None:
        seed = portfolio_cfg['seed']
    if run_kwargs is None:
        run_kwargs = {}
    if n is not None and (entry_prob is not None or exit_prob is not None):
        raise ValueError('Either n or entry_prob and exit_prob should be set')
    if n is not None:
        rand = RANDNX.run(n=n, input_shape=close.shape, input_index=close_wrapper.index, input_columns=close_wrapper.columns, seed=seed, **run_kwargs)
        entries = rand.entries
        exits = rand.exits
    elif entry_prob is not None and exit_prob is not None:
        rprobnx = RPROBNX.run(entry_prob=entry_prob, exit_prob=exit_prob, param_product=param_product, input_shape=close.shape, input_index=close_wrapper.index, input_columns=close_wrapper.columns, seed=seed, **run_kwargs)
        entries = rprobnx.entries
        exits = rprobnx.exits
    else:
        raise ValueError('At least n or entry_prob and exit_prob should be set')
    return cls.from_signals(close, entries, exits, seed=seed, **kwargs)


@classmethod
def from_order_func__of__Portfolio(cls, close, order_func_nb, *order_args, flexible=None, init_cash=None, cash_sharing=None, call_seq=None, segment_mask=None, call_pre_segment=None, call_post_segment=None, pre_sim_func_nb=nb.no_pre_func_nb, pre_sim_args=(), post_sim_func_nb=nb.no_post_func_nb, post_sim_args=(), pre_group_func_nb=nb.no_pre_func_nb, pre_group_args=(), post_group_func_nb=nb.no_post_func_nb, post_group_args=(), pre_row_func_nb=nb.no_pre_func_nb, pre_row_args=(), post_row_func_nb=nb.no_post_func_nb, post_row_args=(), pre_segment_func_nb=nb.no_pre_func_nb, pre_segment_args=(), post_segment_func_nb=nb.no_post_func_nb, post_segment_args=(), post_order_func_nb=nb.no_post_func_nb, post_order_args=(), ffill_val_price=None, update_value=None, fill_pos_record=None, init_temp_records=None, row_wise=None, use_numba=None, max_orders=None, max_logs=None, seed=None, group_by=None, broadcast_named_args=None, broadcast_kwargs=None, template_mapping=None, wrapper_kwargs=None, freq=None, attach_call_seq=None, **kwargs):
    from vectorbt._settings import settings
    portfolio_cfg = settings['portfolio']
    close = to_pd_array(close)
    if flexible is None:
        flexible = portfolio_cfg['flexible']
    if init_cash is None:
        init_cash = portfolio_cfg['init_cash']
    if isinstance(init_cash, str):
        init_cash = map_enum_fields(init_cash, InitCashMode)
    if isinstance(init_cash, int) and init_cash in InitCashMode:
        init_cash_mode = init_cash
        init_cash = np.inf
    else:
        init_cash_mode = None
    if cash_sharing is None:
        cash_sharing = portfolio_cfg['cash_sharing']
    if cash_sharing and group_by is None:
        group_by = True
    if not flexible:
        if call_seq is None:
            call_seq = portfolio_cfg['call_seq']
        call_seq = map_enum_fields(call_seq, CallSeqType)
        if isinstance(call_seq, int):
            if call_seq == CallSeqType.Auto:
                raise ValueError('CallSeqType.Auto must be implemented manually. Use sort_call_seq_nb in pre_segment_func_nb.')
    if segment_mask is None:
        segment_mask = True
    if call_pre_segment is None:
        call_pre_segment = portfolio_cfg['call_pre_segment']
    if call_post_segment is None:
        call_post_segment = portfolio_cfg['call_post_segment']
    if ffill_val_price is None:
        ffill_val_price = portfolio_cfg['ffill_val_price']
    if update_value is None:
        update_value = portfolio_cfg['update_value']
    if fill_pos_record is None:
        fill_pos_record = portfolio_cfg['fill_pos_record']
    if init_temp_records is None:
        init_temp_records = portfolio_cfg['init_temp_records']
    if row_wise is None:
        row_wise = portfolio_cfg['row_wise']
    if use_numba is None:
        use_numba = portfolio_cfg['use_numba']
    if seed is None:
        seed = portfolio_cfg['seed']
    if seed is not None:
        set_seed(seed)
    if freq is None:
        freq = portfolio_cfg['freq']
    if attach_call_seq is None:
        attach_call_seq = portfolio_cfg['attach_call_seq']
    if broadcast_named_args is None:
        broadcast_named_args = {}
    if broadcast_kwargs is None:
        broadcast_kwargs = {}
    require_kwargs = dict(require_kwargs=dict(requirements='W'))
    broadcast_kwargs = merge_dicts(require_kwargs, broadcast_kwargs)
    if template_mapping is None:
        template_mapping = {}
    if wrapper_kwargs is None:
        wrapper_kwargs = {}
    if not wrapper_kwargs.get('group_select', True) and cash_sharing:
        raise ValueError('group_select cannot be disabled if cash_sharing=True')
    broadcastable_args = {**dict(close=close), **broadcast_named_args}
    if len(broadcastable_args) > 1:
        close_idx = list(broadcastable_args.keys()).index('close')
        keep_raw = [True] * len(broadcastable_args)
        keep_raw[close_idx] = False
        broadcast_kwargs = merge_dicts(dict(keep_raw=keep_raw, require_kwargs=dict(requirements='W')), broadcast_kwargs)
        broadcasted_args = broadcast(*broadcastable_args.values(), **broadcast_kwargs)
        broadcasted_args = dict(zip(broadcastable_args.keys(), broadcasted_args))
        close = broadcasted_args['close']
        if not checks.is_pandas(close):
            close = pd.Series(close) if close.ndim == 1 else pd.DataFrame(close)
    else:
        broadcasted_args = broadcastable_args
    broadcasted_args['close'] = to_2d_array(close)
    target_shape_2d = (close.shape[0], close.shape[1] if close.ndim > 1 else 1)
    wrapper = ArrayWrapper.from_obj(close, freq=freq, group_by=group_by, **wrapper_kwargs)
    cs_group_lens = wrapper.grouper.get_group_lens(group_by=None if cash_sharing else False)
    init_cash = np.require(np.broadcast_to(init_cash, (len(cs_group_lens),)), dtype=np.float64)
    group_lens = wrapper.grouper.get_group_lens(group_by=group_by)
    if isinstance(segment_mask, int):
        _segment_mask = np.full((target_shape_2d[0], len(group_lens)), False)
        _segment_mask[0::segment_mask] = True
        segment_mask = _segment_mask
    else:
        segment_mask = broadcast(segment_mask, to_shape=(target_shape_2d[0], len(group_lens)), to_pd=False, **require_kwargs)
    if not flexible:
        if checks.is_any_array(call_seq):
            call_seq = nb.require_call_seq(broadcast(call_seq, to_shape=target_shape_2d, to_pd=False))
        else:
            call_seq = nb.build_call_seq(target_shape_2d, group_lens, call_seq_type=call_seq)
    if max_orders is None:
        max_orders = target_shape_2d[0] * target_shape_2d[1]
    if max_logs is None:
        max_logs = target_shape_2d[0] * target_shape_2d[1]
    template_mapping = {**broadcasted_args, **dict(target_shape=target_shape_2d, group_lens=group_lens, init_cash=init_cash, cash_sharing=cash_sharing, segment_mask=segment_mask, call_pre_segment=call_pre_segment, call_post_segment=call_post_segment, pre_sim_func_nb=pre_sim_func_nb, pre_sim_args=pre_sim_args, post_sim_func_nb=post_sim_func_nb, post_sim_args=post_sim_args, pre_group_func_nb=pre_group_func_nb, pre_group_args=pre_group_args, post_group_func_nb=post_group_func_nb, post_group_args=post_group_args, pre_row_func_nb=pre_row_func_nb, pre_row_args=pre_row_args, post_row_func_nb=post_row_func_nb, post_row_args=post_row_args, pre_segment_func_nb=pre_segment_func_nb, pre_segment_args=pre_segment_args, post_segment_func_nb=post_segment_func_nb, post_segment_args=post_segment_args, flex_order_func_nb=order_func_nb, flex_order_args=order_args, post_order_func_nb=post_order_func_nb, post_order_args=post_order_args, ffill_val_price=ffill_val_price, update_value=update_value, fill_pos_record=fill_pos_record, init_temp_records=init_temp_records, max_orders=max_orders, max_logs=max_logs, flex_2d=close.ndim == 2, wrapper=wrapper), **template_mapping}
    pre_sim_args = deep_substitute(pre_sim_args, template_mapping)
    post_sim_args = deep_substitute(post_sim_args, template_mapping)
    pre_group_args = deep_substitute(pre_group_args, template_mapping)
    post_group_args = deep_substitute(post_group_args, template_mapping)
    pre_row_args = deep_substitute(pre_row_args, template_mapping)
    post_row_args = deep_substitute(post_row_args, template_mapping)
    pre_segment_args = deep_substitute(pre_segment_args, template_mapping)
    post_segment_args = deep_substitute(post_segment_args, template_mapping)
    order_args = deep_substitute(order_args, template_mapping)
    post_order_args = deep_substitute(post_order_args, template_mapping)
    if use_numba:
        checks.assert_numba_func(pre_sim_func_nb)
        checks.assert_numba_func(post_sim_func_nb)
        checks.assert_numba_func(pre_group_func_nb)
        checks.assert_numba_func(post_group_func_nb)
        checks.assert_numba_func(pre_row_func_nb)
        checks.assert_numba_func(post_row_func_nb)
        checks.assert_numba_func(pre_segment_func_nb)
        checks.assert_numba_func(post_segment_func_nb)
        checks.assert_numba_func(order_func_nb)
        checks.assert_numba_func(post_order_func_nb)
    if row_wise:
        if flexible:
            simulate_func = nb.flex_simulate_row_wise_nb
            if not use_numba and hasattr(simulate_func, 'py_func'):
                simulate_func = simulate_func.py_func
            order_records, log_records = simulate_func(target_shape=target_shape_2d, group_lens=group_lens, init_cash=init_cash, cash_sharing=cash_sharing, segment_mask=segment_mask, call_pre_segment=call_pre_segment, call_post_segment=call_post_segment, pre_sim_func_nb=pre_sim_func_nb, pre_sim_args=pre_sim_args, post_sim_func_nb=post_sim_func_nb, post_sim_args=post_sim_args, pre_row_func_nb=pre_row_func_nb, pre_row_args=pre_row_args, post_row_func_nb=post_row_func_nb, post_row_args=post_row_args, pre_segment_func_nb=pre_segment_func_nb, pre_segment_args=pre_segment_args, post_segment_func_nb=post_segment_func_nb, post_segment_args=post_segment_args, flex_order_func_nb=order_func_nb, flex_order_args=order_args, post_order_func_nb=post_order_func_nb, post_order_args=post_order_args, close=broadcasted_args['close'], ffill_val_price=ffill_val_price, update_value=update_value, fill_pos_record=fill_pos_record, init_temp_records=init_temp_records, max_orders=max_orders, max_logs=max_logs, flex_2d=close.ndim == 2)
        else:
            simulate_func = nb.simulate_row_wise_nb
            if not use_numba and hasattr(simulate_func, 'py_func'):
                simulate_func = simulate_func.py_func
            order_records, log_records = simulate_func(target_shape=target_shape_2d, group_lens=group_lens, init_cash=init_cash, cash_sharing=cash_sharing, call_seq=call_seq, segment_mask=segment_mask, call_pre_segment=call_pre_segment, call_post_segment=call_post_segment, pre_sim_func_nb=pre_sim_func_nb, pre_sim_args=pre_sim_args, post_sim_func_nb=post_sim_func_nb, post_sim_args=post_sim_args, pre_row_func_nb=pre_row_func_nb, pre_row_args=pre_row_args, post_row_func_nb=post_row_func_nb, post_row_args=post_row_args, pre_segment_func_nb=pre_segment_func_nb, pre_segment_args=pre_segment_args, post_segment_func_nb=post_segment_func_nb, post_segment_args=post_segment_args, order_func_nb=order_func_nb, order_args=order_args, post_order_func_nb=post_order_func_nb, post_order_args=post_order_args, close=broadcasted_args['close'], ffill_val_price=ffill_val_price, update_value=update_value, fill_pos_record=fill_pos_record, init_temp_records=init_temp_records, max_orders=max_orders, max_logs=max_logs, flex_2d=close.ndim == 2)
    elif flexible:
        simulate_func = nb.flex_simulate_nb
        if not use_numba and hasattr(simulate_func, 'py_func'):
            simulate_func = simulate_func.py_func
        order_records, log_records = simulate_func(target_shape=target_shape_2d, group_lens=group_lens, init_cash=init_cash, cash_sharing=cash_sharing, segment_mask=segment_mask, call_pre_segment=call_pre_segment, call_post_segment=call_post_segment, pre_sim_func_nb=pre_sim_func_nb, pre_sim_args=pre_sim_args, post_sim_func_nb=post_sim_func_nb, post_sim_args=post_sim_args, pre_group_func_nb=pre_group_func_nb, pre_group_args=pre_group_args, post_group_func_nb=post_group_func_nb, post_group_args=post_group_args, pre_segment_func_nb=pre_segment_func_nb, pre_segment_args=pre_segment_args, post_segment_func_nb=post_segment_func_nb, post_segment_args=post_segment_args, flex_order_func_nb=order_func_nb, flex_order_args=order_args, post_order_func_nb=post_order_func_nb, post_order_args=post_order_args, close=broadcasted_args['close'], ffill_val_price=ffill_val_price, update_value=update_value, fill_pos_record=fill_pos_record, init_temp_records=init_temp_records, max_orders=max_orders, max_logs=max_logs, flex_2d=close.ndim == 2)
    else:
        simulate_func = nb.simulate_nb
        if not use_numba and hasattr(simulate_func, 'py_func'):
            simulate_func = simulate_func.py_func
        order_records, log_records = simulate_func(target_shape=target_shape_2d, group_lens=group_lens, init_cash=init_cash, cash_sharing=cash_sharing, call_seq=call_seq, segment_mask=segment_mask, call_pre_segment=call_pre_segment, call_post_segment=call_post_segment, pre_sim_func_nb=pre_sim_func_nb, pre_sim_args=pre_sim_args, post_sim_func_nb=post_sim_func_nb, post_sim_args=post_sim_args, pre_group_func_nb=pre_group_func_nb, pre_group_args=pre_group_args, post_group_func_nb=post_group_func_nb, post_group_args=post_group_args, pre_segment_func_nb=pre_segment_func_nb, pre_segment_args=pre_segment_args, post_segment_func_nb=post_segment_func_nb, post_segment_args=post_segment_args, order_func_nb=order_func_nb, order_args=order_args, post_order_func_nb=post_order_func_nb, post_order_args=post_order_args, close=broadcasted_args['close'], ffill_val_price=ffill_val_price, update_value=update_value, fill_pos_record=fill_pos_record, init_temp_records=init_temp_records, max_orders=max_orders, max_logs=max_logs, flex_2d=close.ndim == 2)
    return cls(wrapper, close, order_records, log_records, init_cash if init_cash_mode is None else init_cash_mode, cash_sharing, call_seq=call_seq if not flexible and attach_call_seq else None, **kwargs)


def wrapper__of__Portfolio(self):
    if self.cash_sharing:
        return self._wrapper.replace(allow_enable=False, allow_modify=False)
    return self._wrapper


def regroup__of__Portfolio(self, group_by, **kwargs):
    if self.cash_sharing:
        if self.wrapper.grouper.is_grouping_modified(group_by=group_by):
            raise ValueError('Cannot modify grouping globally when cash_sharing=True')
    return Wrapping.regroup(self, group_by, **kwargs)


def cash_sharing__of__Portfolio(self):
    return self._cash_sharing


def call_seq__of__Portfolio(self, wrap_kwargs=None):
    if self._call_seq is None:
        return None
    return self.wrapper.wrap(self._call_seq, group_by=False, **merge_dicts({}, wrap_kwargs))


def fillna_close__of__Portfolio(self):
    return self._fillna_close


def trades_type__of__Portfolio(self):
    return self._trades_type


def close__of__Portfolio(self):
    return self._close


def get_filled_close__of__Portfolio(self, wrap_kwargs=None):
    close = to_2d_array(self.close.ffill().bfill())
    return self.wrapper.wrap(close, group_by=False, **merge_dicts({}, wrap_kwargs))


def order_records__of__Portfolio(self):
    return self._order_records


def orders__of__Portfolio(self):
    return self.get_orders()


def get_orders__of__Portfolio(self, group_by=None, **kwargs):
    return Orders(self.wrapper, self.order_records, close=self.close, engine=self.engine, **kwargs).regroup(group_by)


def log_records__of__Portfolio(self):
    return self._log_records


def logs__of__Portfolio(self):
    return self.get_logs()


def get_logs__of__Portfolio(self, group_by=None, **kwargs):
    return Logs(self.wrapper, self.log_records, **kwargs).regroup(group_by)


def entry_trades__of__Portfolio(self):
    return self.get_entry_trades()


def get_entry_trades__of__Portfolio(self, group_by=None, **kwargs):
    return EntryTrades.from_orders(self.orders, engine=self.engine, **kwargs).regroup(group_by)


def exit_trades__of__Portfolio(self):
    return self.get_exit_trades()


def get_exit_trades__of__Portfolio(self, group_by=None, **kwargs):
    return ExitTrades.from_orders(self.orders, engine=self.engine, **kwargs).regroup(group_by)


def trades__of__Portfolio(self):
    return self.get_trades()


def positions__of__Portfolio(self):
    return self.get_positions()


def get_positions__of__Portfolio(self, group_by=None, **kwargs):
    return Positions.from_trades(self.exit_trades, engine=self.engine, **kwargs).regroup(group_by)


def get_trades__of__Portfolio(self, group_by=None, **kwargs):
    if self.trades_type == TradesType.EntryTrades:
        return self.get_entry_trades(group_by=group_by, **kwargs)
    elif self.trades_type == TradesType.ExitTrades:
        return self.get_exit_trades(group_by=group_by, **kwargs)
    return self.get_positions(group_by=group_by, **kwargs)


def drawdowns__of__Portfolio(self):
    return self.get_drawdowns()


def get_drawdowns__of__Portfolio(self, group_by=None, wrap_kwargs=None, wrapper_kwargs=None, **kwargs):
    value = self.value(group_by=group_by, wrap_kwargs=wrap_kwargs)
    wrapper_kwargs = merge_dicts(self.orders.wrapper.config, wrapper_kwargs, dict(group_by=None))
    return Drawdowns.from_ts(value, wrapper_kwargs=wrapper_kwargs, engine=self.engine, **kwargs)


def asset_flow__of__Portfolio(self, direction='both', wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    direction = map_enum_fields(direction, Direction)
    asset_flow = dispatch.asset_flow(self.wrapper.shape_2d, self.orders.values, self.orders.col_mapper.col_map, direction, engine=engine)
    return self.wrapper.wrap(asset_flow, group_by=False, **merge_dicts({}, wrap_kwargs))


def assets__of__Portfolio(self, direction='both', wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    direction = map_enum_fields(direction, Direction)
    asset_flow = to_2d_array(self.asset_flow(direction='both'))
    assets = dispatch.assets(asset_flow, engine=engine)
    if direction == Direction.LongOnly:
        assets = np.where(assets > 0, assets, 0.0)
    if direction == Direction.ShortOnly:
        assets = np.where(assets < 0, -assets, 0.0)
    return self.wrapper.wrap(assets, group_by=False, **merge_dicts({}, wrap_kwargs))


def position_mask__of__Portfolio(self, direction='both', group_by=None, wrap_kwargs=None):
    direction = map_enum_fields(direction, Direction)
    assets = to_2d_array(self.assets(direction=direction))
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        position_mask = to_2d_array(self.position_mask(direction=direction, group_by=False))
        group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
        position_mask = nb.position_mask_grouped_nb(position_mask, group_lens)
    else:
        position_mask = assets != 0
    return self.wrapper.wrap(position_mask, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def position_coverage__of__Portfolio(self, direction='both', group_by=None, wrap_kwargs=None):
    direction = map_enum_fields(direction, Direction)
    assets = to_2d_array(self.assets(direction=direction))
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        position_mask = to_2d_array(self.position_mask(direction=direction, group_by=False))
        group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
        position_coverage = nb.position_coverage_grouped_nb(position_mask, group_lens)
    else:
        position_coverage = np.mean(assets != 0, axis=0)
    wrap_kwargs = merge_dicts(dict(name_or_index='position_coverage'), wrap_kwargs)
    return self.wrapper.wrap_reduced(position_coverage, group_by=group_by, **wrap_kwargs)


def cash_flow__of__Portfolio(self, group_by=None, free=False, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        cash_flow = to_2d_array(self.cash_flow(group_by=False, free=free))
        group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
        cash_flow = dispatch.cash_flow_grouped(cash_flow, group_lens, engine=engine)
    else:
        cash_flow = dispatch.cash_flow(self.wrapper.shape_2d, self.orders.values, self.orders.col_mapper.col_map, free, engine=engine)
    return self.wrapper.wrap(cash_flow, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def init_cash__of__Portfolio(self):
    return self.get_init_cash()


def get_init_cash__of__Portfolio(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    if isinstance(self._init_cash, int):
        cash_flow = to_2d_array(self.cash_flow(group_by=group_by))
        cash_min = np.min(np.cumsum(cash_flow, axis=0), axis=0)
        init_cash = np.where(cash_min < 0, np.abs(cash_min), 1.0)
        if self._init_cash == InitCashMode.AutoAlign:
            init_cash = np.full(init_cash.shape, np.max(init_cash))
    else:
        init_cash = to_1d_array(self._init_cash)
        if self.wrapper.grouper.is_grouped(group_by=group_by):
            group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
            init_cash = dispatch.init_cash_grouped(init_cash, group_lens, self.cash_sharing, engine=engine)
        else:
            group_lens = self.wrapper.grouper.get_group_lens()
            init_cash = dispatch.init_cash(init_cash, group_lens, self.cash_sharing, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='init_cash'), wrap_kwargs)
    return self.wrapper.wrap_reduced(init_cash, group_by=group_by, **wrap_kwargs)


def cash__of__Portfolio(self, group_by=None, in_sim_order=False, free=False, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    if in_sim_order and (not self.cash_sharing):
        raise ValueError('Cash sharing must be enabled for in_sim_order=True')
    cash_flow = to_2d_array(self.cash_flow(group_by=group_by, free=free))
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
        init_cash = to_1d_array(self.get_init_cash(group_by=group_by))
        cash = dispatch.cash_grouped(self.wrapper.shape_2d, cash_flow, group_lens, init_cash, engine=engine)
    elif self.wrapper.grouper.is_grouping_disabled(group_by=group_by) and in_sim_order:
        if self.call_seq is None:
            raise ValueError('No call sequence attached. Pass `attach_call_seq=True` to the class method (flexible simulations are not supported)')
        group_lens = self.wrapper.grouper.get_group_lens()
        init_cash = to_1d_array(self.init_cash)
        call_seq = to_2d_array(self.call_seq)
        cash = dispatch.cash_in_sim_order(cash_flow, group_lens, init_cash, call_seq, engine=engine)
    else:
        init_cash = to_1d_array(self.get_init_cash(group_by=False))
        cash = dispatch.cash(cash_flow, init_cash, engine=engine)
    return self.wrapper.wrap(cash, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def asset_value__of__Portfolio(self, direction='both', group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    direction = map_enum_fields(direction, Direction)
    if self.fillna_close:
        close = to_2d_array(self.get_filled_close()).copy()
    else:
        close = to_2d_array(self.close).copy()
    assets = to_2d_array(self.assets(direction=direction))
    close[assets == 0] = 0.0
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        asset_value = to_2d_array(self.asset_value(direction=direction, group_by=False))
        group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
        asset_value = dispatch.asset_value_grouped(asset_value, group_lens, engine=engine)
    else:
        asset_value = dispatch.asset_value(close, assets, engine=engine)
    return self.wrapper.wrap(asset_value, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def gross_exposure__of__Portfolio(self, direction='both', group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        asset_value_ungrouped = to_2d_array(self.asset_value(group_by=False, direction=direction))
        group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
        abs_asset_value = dispatch.asset_value_grouped(np.abs(asset_value_ungrouped), group_lens, engine=engine)
    else:
        abs_asset_value = np.abs(to_2d_array(self.asset_value(group_by=group_by, direction=direction)))
    cash = to_2d_array(self.cash(group_by=group_by, free=True))
    gross_exposure = dispatch.gross_exposure(abs_asset_value, cash, engine=engine)
    return self.wrapper.wrap(gross_exposure, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def net_exposure__of__Portfolio(self, group_by=None, wrap_kwargs=None):
    long_exposure = to_2d_array(self.gross_exposure(direction='longonly', group_by=group_by))
    short_exposure = to_2d_array(self.gross_exposure(direction='shortonly', group_by=group_by))
    net_exposure = long_exposure - short_exposure
    return self.wrapper.wrap(net_exposure, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def value__of__Portfolio(self, group_by=None, in_sim_order=False, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    cash = to_2d_array(self.cash(group_by=group_by, in_sim_order=in_sim_order))
    asset_value = to_2d_array(self.asset_value(group_by=group_by))
    if self.wrapper.grouper.is_grouping_disabled(group_by=group_by) and in_sim_order:
        if self.call_seq is None:
            raise ValueError('No call sequence attached. Pass `attach_call_seq=True` to the class method (flexible simulations are not supported)')
        group_lens = self.wrapper.grouper.get_group_lens()
        call_seq = to_2d_array(self.call_seq)
        value = dispatch.value_in_sim_order(cash, asset_value, group_lens, call_seq, engine=engine)
    else:
        value = dispatch.value(cash, asset_value, engine=engine)
    return self.wrapper.wrap(value, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def total_profit__of__Portfolio(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        total_profit = to_1d_array(self.total_profit(group_by=False))
        group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
        total_profit = dispatch.total_profit_grouped(total_profit, group_lens, engine=engine)
    else:
        if self.fillna_close:
            close = to_2d_array(self.get_filled_close())
        else:
            close = to_2d_array(self.close)
        total_profit = dispatch.total_profit(self.wrapper.shape_2d, close, self.orders.values, self.orders.col_mapper.col_map, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='total_profit'), wrap_kwargs)
    return self.wrapper.wrap_reduced(total_profit, group_by=group_by, **wrap_kwargs)


def final_value__of__Portfolio(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    init_cash = to_1d_array(self.get_init_cash(group_by=group_by))
    total_profit = to_1d_array(self.total_profit(group_by=group_by))
    final_value = dispatch.final_value(total_profit, init_cash, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='final_value'), wrap_kwargs)
    return self.wrapper.wrap_reduced(final_value, group_by=group_by, **wrap_kwargs)


def total_return__of__Portfolio(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    init_cash = to_1d_array(self.get_init_cash(group_by=group_by))
    total_profit = to_1d_array(self.total_profit(group_by=group_by))
    total_return = dispatch.total_return(total_profit, init_cash, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='total_return'), wrap_kwargs)
    return self.wrapper.wrap_reduced(total_return, group_by=group_by, **wrap_kwargs)


def returns__of__Portfolio(self, group_by=None, in_sim_order=False, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    value = to_2d_array(self.value(group_by=group_by, in_sim_order=in_sim_order))
    if self.wrapper.grouper.is_grouping_disabled(group_by=group_by) and in_sim_order:
        if self.call_seq is None:
            raise ValueError('No call sequence attached. Pass `attach_call_seq=True` to the class method (flexible simulations are not supported)')
        group_lens = self.wrapper.grouper.get_group_lens()
        init_cash_grouped = to_1d_array(self.init_cash)
        call_seq = to_2d_array(self.call_seq)
        returns = dispatch.returns_in_sim_order(value, group_lens, init_cash_grouped, call_seq, engine=engine)
    else:
        init_cash = to_1d_array(self.get_init_cash(group_by=group_by))
        returns = returns_dispatch.returns(value, init_cash, engine=engine)
    return self.wrapper.wrap(returns, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def asset_returns__of__Portfolio(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    cash_flow = to_2d_array(self.cash_flow(group_by=group_by))
    asset_value = to_2d_array(self.asset_value(group_by=group_by))
    asset_returns = dispatch.asset_returns(cash_flow, asset_value, engine=engine)
    return self.wrapper.wrap(asset_returns, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def returns_acc__of__Portfolio(self):
    return self.get_returns_acc()


def get_returns_acc__of__Portfolio(self, group_by=None, benchmark_rets=None, freq=None, year_freq=None, use_asset_returns=False, defaults=None, **kwargs):
    if freq is None:
        freq = self.wrapper.freq
    if use_asset_returns:
        returns = self.asset_returns(group_by=group_by)
    else:
        returns = self.returns(group_by=group_by)
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_returns(group_by=group_by)
    return returns.vbt.returns(benchmark_rets=benchmark_rets, freq=freq, year_freq=year_freq, defaults=defaults, **kwargs)


def qs__of__Portfolio(self):
    return self.get_qs()


def get_qs__of__Portfolio(self, group_by=None, benchmark_rets=None, freq=None, year_freq=None, use_asset_returns=False, **kwargs):
    from vectorbt.returns.qs_adapter import QSAdapter
    returns_acc = self.get_returns_acc(group_by=group_by, benchmark_rets=benchmark_rets, freq=freq, year_freq=year_freq, use_asset_returns=use_asset_returns)
    return QSAdapter(returns_acc, **kwargs)


def benchmark_value__of__Portfolio(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    if self.fillna_close:
        close = to_2d_array(self.get_filled_close())
    else:
        close = to_2d_array(self.close)
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
        init_cash_grouped = to_1d_array(self.get_init_cash(group_by=group_by))
        benchmark_value = dispatch.benchmark_value_grouped(close, group_lens, init_cash_grouped, engine=engine)
    else:
        init_cash = to_1d_array(self.get_init_cash(group_by=False))
        benchmark_value = dispatch.benchmark_value(close, init_cash, engine=engine)
    return self.wrapper.wrap(benchmark_value, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def benchmark_returns__of__Portfolio(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    benchmark_value = to_2d_array(self.benchmark_value(group_by=group_by))
    init_cash = to_1d_array(self.get_init_cash(group_by=group_by))
    benchmark_returns = returns_dispatch.returns(benchmark_value, init_cash, engine=engine)
    return self.wrapper.wrap(benchmark_returns, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def benchmark_rets__decl__of__Portfolio():
    return benchmark_returns


def total_benchmark_return__of__Portfolio(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    benchmark_value = to_2d_array(self.benchmark_value(group_by=group_by))
    total_benchmark_return = dispatch.total_benchmark_return(benchmark_value, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='total_benchmark_return'), wrap_kwargs)
    return self.wrapper.wrap_reduced(total_benchmark_return, group_by=group_by, **wrap_kwargs)


def self_aliases__of__Portfolio(self):
    return {'self', 'portfolio', 'pf'}


def pre_resolve_attr__of__Portfolio(self, attr, final_kwargs=None):
    if 'use_asset_returns' in final_kwargs:
        if attr == 'returns' and final_kwargs['use_asset_returns']:
            attr = 'asset_returns'
    if 'trades_type' in final_kwargs:
        trades_type = final_kwargs['trades_type']
        if isinstance(final_kwargs['trades_type'], str):
            trades_type = map_enum_fields(trades_type, TradesType)
        if attr == 'trades' and trades_type != self.trades_type:
            if trades_type == TradesType.EntryTrades:
                attr = 'entry_trades'
            elif trades_type == TradesType.ExitTrades:
                attr = 'exit_trades'
            else:
                attr = 'positions'
    return attr


def post_resolve_attr__of__Portfolio(self, attr, out, final_kwargs=None):
    if 'incl_open' in final_kwargs:
        if isinstance(out, Trades) and (not final_kwargs['incl_open']):
            out = out.closed
    return out


def stats_defaults__of__Portfolio(self):
    from vectorbt._settings import settings
    returns_cfg = settings['returns']
    portfolio_stats_cfg = settings['portfolio']['stats']
    return merge_dicts(StatsBuilderMixin.stats_defaults.__get__(self), dict(settings=dict(year_freq=returns_cfg['year_freq'], trades_type=self.trades_type)), portfolio_stats_cfg)


def _metrics__decl__of__Portfolio():
    return Config(dict(start=dict(title='Start', calc_func=lambda self: self.wrapper.index[0], agg_func=None, tags='wrapper'), end=dict(title='End', calc_func=lambda self: self.wrapper.index[-1], agg_func=None, tags='wrapper'), period=dict(title='Period', calc_func=lambda self: len(self.wrapper.index), apply_to_timedelta=True, agg_func=None, tags='wrapper'), start_value=dict(title='Start Value', calc_func='get_init_cash', tags='portfolio'), end_value=dict(title='End Value', calc_func='final_value', tags='portfolio'), total_return=dict(title='Total Return [%]', calc_func='total_return', post_calc_func=lambda self, out, settings: out * 100, tags='portfolio'), benchmark_return=dict(title='Benchmark Return [%]', calc_func='benchmark_rets.vbt.returns.total', post_calc_func=lambda self, out, settings: out * 100, tags='portfolio'), max_gross_exposure=dict(title='Max Gross Exposure [%]', calc_func='gross_exposure.vbt.max', post_calc_func=lambda self, out, settings: out * 100, tags='portfolio'), total_fees_paid=dict(title='Total Fees Paid', calc_func='orders.fees.sum', tags=['portfolio', 'orders']), max_dd=dict(title='Max Drawdown [%]', calc_func='drawdowns.max_drawdown', post_calc_func=lambda self, out, settings: -out * 100, tags=['portfolio', 'drawdowns']), max_dd_duration=dict(title='Max Drawdown Duration', calc_func='drawdowns.max_duration', fill_wrap_kwargs=True, tags=['portfolio', 'drawdowns', 'duration']), total_trades=dict(title='Total Trades', calc_func='trades.count', incl_open=True, tags=['portfolio', 'trades']), total_closed_trades=dict(title='Total Closed Trades', calc_func='trades.closed.count', tags=['portfolio', 'trades', 'closed']), total_open_trades=dict(title='Total Open Trades', calc_func='trades.open.count', incl_open=True, tags=['portfolio', 'trades', 'open']), open_trade_pnl=dict(title='Open Trade PnL', calc_func='trades.open.pnl.sum', incl_open=True, tags=['portfolio', 'trades', 'open']), win_rate=dict(title='Win Rate [%]', calc_func='trades.win_rate', post_calc_func=lambda self, out, settings: out * 100, tags=RepEval("['portfolio', 'trades', *incl_open_tags]")), best_trade=dict(title='Best Trade [%]', calc_func='trades.returns.max', post_calc_func=lambda self, out, settings: out * 100, tags=RepEval("['portfolio', 'trades', *incl_open_tags]")), worst_trade=dict(title='Worst Trade [%]', calc_func='trades.returns.min', post_calc_func=lambda self, out, settings: out * 100, tags=RepEval("['portfolio', 'trades', *incl_open_tags]")), avg_winning_trade=dict(title='Avg Winning Trade [%]', calc_func='trades.winning.returns.mean', post_calc_func=lambda self, out, settings: out * 100, tags=RepEval("['portfolio', 'trades', *incl_open_tags, 'winning']")), avg_losing_trade=dict(title='Avg Losing Trade [%]', calc_func='trades.losing.returns.mean', post_calc_func=lambda self, out, settings: out * 100, tags=RepEval("['portfolio', 'trades', *incl_open_tags, 'losing']")), avg_winning_trade_duration=dict(title='Avg Winning Trade Duration', calc_func='trades.winning.duration.mean', apply_to_timedelta=True, tags=RepEval("['portfolio', 'trades', *incl_open_tags, 'winning', 'duration']")), avg_losing_trade_duration=dict(title='Avg Losing Trade Duration', calc_func='trades.losing.duration.mean', apply_to_timedelta=True, tags=RepEval("['portfolio', 'trades', *incl_open_tags, 'losing', 'duration']")), profit_factor=dict(title='Profit Factor', calc_func='trades.profit_factor', tags=RepEval("['portfolio', 'trades', *incl_open_tags]")), expectancy=dict(title='Expectancy', calc_func='trades.expectancy', tags=RepEval("['portfolio', 'trades', *incl_open_tags]")), sharpe_ratio=dict(title='Sharpe Ratio', calc_func='returns_acc.sharpe_ratio', check_has_freq=True, check_has_year_freq=True, tags=['portfolio', 'returns']), calmar_ratio=dict(title='Calmar Ratio', calc_func='returns_acc.calmar_ratio', check_has_freq=True, check_has_year_freq=True, tags=['portfolio', 'returns']), omega_ratio=dict(title='Omega Ratio', calc_func='returns_acc.omega_ratio', check_has_freq=True, check_has_year_freq=True, tags=['portfolio', 'returns']), sortino_ratio=dict(title='Sortino Ratio', calc_func='returns_acc.sortino_ratio', check_has_freq=True, check_has_year_freq=True, tags=['portfolio', 'returns'])), copy_kwargs=dict(copy_mode='deep'))


def metrics__of__Portfolio(self):
    return self._metrics


def returns_stats__of__Portfolio(self, group_by=None, benchmark_rets=None, freq=None, year_freq=None, use_asset_returns=False, defaults=None, **kwargs):
    returns_acc = self.get_returns_acc(group_by=group_by, benchmark_rets=benchmark_rets, freq=freq, year_freq=year_freq, use_asset_returns=use_asset_returns, defaults=defaults)
    return getattr(returns_acc, 'stats')(**kwargs)


def plot_orders__of__Portfolio(self, column=None, **kwargs):
    kwargs = merge_dicts(dict(close_trace_kwargs=dict(name='Close')), kwargs)
    return self.orders.regroup(False).plot(column=column, **kwargs)


def plot_trades__of__Portfolio(self, column=None, **kwargs):
    kwargs = merge_dicts(dict(close_trace_kwargs=dict(name='Close')), kwargs)
    return self.trades.regroup(False).plot(column=column, **kwargs)


def plot_trade_pnl__of__Portfolio(self, column=None, **kwargs):
    return self.trades.regroup(False).plot_pnl(column=column, **kwargs)


def plot_positions__of__Portfolio(self, column=None, **kwargs):
    kwargs = merge_dicts(dict(close_trace_kwargs=dict(name='Close')), kwargs)
    return self.positions.regroup(False).plot(column=column, **kwargs)


def plot_position_pnl__of__Portfolio(self, column=None, **kwargs):
    return self.positions.regroup(False).plot_pnl(column=column, **kwargs)


def plot_asset_flow__of__Portfolio(self, column=None, direction='both', xref='x', yref='y', hline_shape_kwargs=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    kwargs = merge_dicts(dict(trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['brown']), name='Assets')), kwargs)
    asset_flow = self.asset_flow(direction=direction)
    asset_flow = self.select_one_from_obj(asset_flow, self.wrapper.regroup(False), column=column)
    fig = asset_flow.vbt.plot(**kwargs)
    x_domain = get_domain(xref, fig)
    fig.add_shape(**merge_dicts(dict(type='line', line=dict(color='gray', dash='dash'), xref='paper', yref=yref, x0=x_domain[0], y0=0, x1=x_domain[1], y1=0), hline_shape_kwargs))
    return fig


def plot_cash_flow__of__Portfolio(self, column=None, group_by=None, free=False, xref='x', yref='y', hline_shape_kwargs=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    kwargs = merge_dicts(dict(trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['green']), name='Cash')), kwargs)
    cash_flow = self.cash_flow(group_by=group_by, free=free)
    cash_flow = self.select_one_from_obj(cash_flow, self.wrapper.regroup(group_by), column=column)
    fig = cash_flow.vbt.plot(**kwargs)
    x_domain = get_domain(xref, fig)
    fig.add_shape(**merge_dicts(dict(type='line', line=dict(color='gray', dash='dash'), xref='paper', yref=yref, x0=x_domain[0], y0=0.0, x1=x_domain[1], y1=0.0), hline_shape_kwargs))
    return fig


def plot_assets__of__Portfolio(self, column=None, direction='both', xref='x', yref='y', hline_shape_kwargs=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    kwargs = merge_dicts(dict(trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['brown']), name='Assets'), pos_trace_kwargs=dict(fillcolor=adjust_opacity(plotting_cfg['color_schema']['brown'], 0.3)), neg_trace_kwargs=dict(fillcolor=adjust_opacity(plotting_cfg['color_schema']['orange'], 0.3)), other_trace_kwargs='hidden'), kwargs)
    assets = self.assets(direction=direction)
    assets = self.select_one_from_obj(assets, self.wrapper.regroup(False), column=column)
    fig = assets.vbt.plot_against(0, **kwargs)
    x_domain = get_domain(xref, fig)
    fig.add_shape(**merge_dicts(dict(type='line', line=dict(color='gray', dash='dash'), xref='paper', yref=yref, x0=x_domain[0], y0=0.0, x1=x_domain[1], y1=0.0), hline_shape_kwargs))
    return fig


def plot_cash__of__Portfolio(self, column=None, group_by=None, free=False, xref='x', yref='y', hline_shape_kwargs=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    kwargs = merge_dicts(dict(trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['green']), name='Cash'), pos_trace_kwargs=dict(fillcolor=adjust_opacity(plotting_cfg['color_schema']['green'], 0.3)), neg_trace_kwargs=dict(fillcolor=adjust_opacity(plotting_cfg['color_schema']['red'], 0.3)), other_trace_kwargs='hidden'), kwargs)
    init_cash = self.get_init_cash(group_by=group_by)
    init_cash = self.select_one_from_obj(init_cash, self.wrapper.regroup(group_by), column=column)
    cash = self.cash(group_by=group_by, free=free)
    cash = self.select_one_from_obj(cash, self.wrapper.regroup(group_by), column=column)
    fig = cash.vbt.plot_against(init_cash, **kwargs)
    x_domain = get_domain(xref, fig)
    fig.add_shape(**merge_dicts(dict(type='line', line=dict(color='gray', dash='dash'), xref='paper', yref=yref, x0=x_domain[0], y0=init_cash, x1=x_domain[1], y1=init_cash), hline_shape_kwargs))
    return fig


def plot_asset_value__of__Portfolio(self, column=None, group_by=None, direction='both', xref='x', yref='y', hline_shape_kwargs=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    kwargs = merge_dicts(dict(trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['cyan']), name='Asset Value'), pos_trace_kwargs=dict(fillcolor=adjust_opacity(plotting_cfg['color_schema']['cyan'], 0.3)), neg_trace_kwargs=dict(fillcolor=adjust_opacity(plotting_cfg['color_schema']['orange'], 0.3)), other_trace_kwargs='hidden'), kwargs)
    asset_value = self.asset_value(direction=direction, group_by=group_by)
    asset_value = self.select_one_from_obj(asset_value, self.wrapper.regroup(group_by), column=column)
    fig = asset_value.vbt.plot_against(0, **kwargs)
    x_domain = get_domain(xref, fig)
    fig.add_shape(**merge_dicts(dict(type='line', line=dict(color='gray', dash='dash'), xref='paper', yref=yref, x0=x_domain[0], y0=0.0, x1=x_domain[1], y1=0.0), hline_shape_kwargs))
    return fig


def plot_value__of__Portfolio(self, column=None, group_by=None, xref='x', yref='y', hline_shape_kwargs=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    kwargs = merge_dicts(dict(trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['purple']), name='Value'), other_trace_kwargs='hidden'), kwargs)
    init_cash = self.get_init_cash(group_by=group_by)
    init_cash = self.select_one_from_obj(init_cash, self.wrapper.regroup(group_by), column=column)
    value = self.value(group_by=group_by)
    value = self.select_one_from_obj(value, self.wrapper.regroup(group_by), column=column)
    fig = value.vbt.plot_against(init_cash, **kwargs)
    x_domain = get_domain(xref, fig)
    fig.add_shape(**merge_dicts(dict(type='line', line=dict(color='gray', dash='dash'), xref='paper', yref=yref, x0=x_domain[0], y0=init_cash, x1=x_domain[1], y1=init_cash), hline_shape_kwargs))
    return fig


def plot_cum_returns__of__Portfolio(self, column=None, group_by=None, benchmark_rets=None, use_asset_returns=False, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_returns(group_by=group_by)
    else:
        benchmark_rets = broadcast_to(benchmark_rets, self.wrapper.dummy(group_by=group_by))
    benchmark_rets = self.select_one_from_obj(benchmark_rets, self.wrapper.regroup(group_by), column=column)
    kwargs = merge_dicts(dict(benchmark_rets=benchmark_rets, main_kwargs=dict(trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['purple']), name='Value')), hline_shape_kwargs=dict(type='line', line=dict(color='gray', dash='dash'))), kwargs)
    if use_asset_returns:
        returns = self.asset_returns(group_by=group_by)
    else:
        returns = self.returns(group_by=group_by)
    returns = self.select_one_from_obj(returns, self.wrapper.regroup(group_by), column=column)
    return returns.vbt.returns.plot_cumulative(**kwargs)


def plot_drawdowns__of__Portfolio(self, column=None, group_by=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    kwargs = merge_dicts(dict(ts_trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['purple']), name='Value')), kwargs)
    return self.get_drawdowns(group_by=group_by).plot(column=column, **kwargs)


def plot_underwater__of__Portfolio(self, column=None, group_by=None, xref='x', yref='y', hline_shape_kwargs=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    kwargs = merge_dicts(dict(trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['red']), fillcolor=adjust_opacity(plotting_cfg['color_schema']['red'], 0.3), fill='tozeroy', name='Drawdown')), kwargs)
    drawdown = self.drawdown(group_by=group_by)
    drawdown = self.select_one_from_obj(drawdown, self.wrapper.regroup(group_by), column=column)
    fig = drawdown.vbt.plot(**kwargs)
    x_domain = get_domain(xref, fig)
    fig.add_shape(**merge_dicts(dict(type='line', line=dict(color='gray', dash='dash'), xref='paper', yref=yref, x0=x_domain[0], y0=0, x1=x_domain[1], y1=0), hline_shape_kwargs))
    yaxis = 'yaxis' + yref[1:]
    fig.layout[yaxis]['tickformat'] = '%'
    return fig


def plot_gross_exposure__of__Portfolio(self, column=None, group_by=None, direction='both', xref='x', yref='y', hline_shape_kwargs=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    kwargs = merge_dicts(dict(trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['pink']), name='Exposure'), pos_trace_kwargs=dict(fillcolor=adjust_opacity(plotting_cfg['color_schema']['orange'], 0.3)), neg_trace_kwargs=dict(fillcolor=adjust_opacity(plotting_cfg['color_schema']['pink'], 0.3)), other_trace_kwargs='hidden'), kwargs)
    gross_exposure = self.gross_exposure(direction=direction, group_by=group_by)
    gross_exposure = self.select_one_from_obj(gross_exposure, self.wrapper.regroup(group_by), column=column)
    fig = gross_exposure.vbt.plot_against(1, **kwargs)
    x_domain = get_domain(xref, fig)
    fig.add_shape(**merge_dicts(dict(type='line', line=dict(color='gray', dash='dash'), xref='paper', yref=yref, x0=x_domain[0], y0=1, x1=x_domain[1], y1=1), hline_shape_kwargs))
    return fig


def plot_net_exposure__of__Portfolio(self, column=None, group_by=None, xref='x', yref='y', hline_shape_kwargs=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    kwargs = merge_dicts(dict(trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['pink']), name='Exposure'), pos_trace_kwargs=dict(fillcolor=adjust_opacity(plotting_cfg['color_schema']['pink'], 0.3)), neg_trace_kwargs=dict(fillcolor=adjust_opacity(plotting_cfg['color_schema']['orange'], 0.3)), other_trace_kwargs='hidden'), kwargs)
    net_exposure = self.net_exposure(group_by=group_by)
    net_exposure = self.select_one_from_obj(net_exposure, self.wrapper.regroup(group_by), column=column)
    fig = net_exposure.vbt.plot_against(0, **kwargs)
    x_domain = get_domain(xref, fig)
    fig.add_shape(**merge_dicts(dict(type='line', line=dict(color='gray', dash='dash'), xref='paper', yref=yref, x0=x_domain[0], y0=0, x1=x_domain[1], y1=0), hline_shape_kwargs))
    return fig


def plots_defaults__of__Portfolio(self):
    from vectorbt._settings import settings
    returns_cfg = settings['returns']
    portfolio_plots_cfg = settings['portfolio']['plots']
    return merge_dicts(PlotsBuilderMixin.plots_defaults.__get__(self), dict(settings=dict(year_freq=returns_cfg['year_freq'], trades_type=self.trades_type)), portfolio_plots_cfg)


def _subplots__decl__of__Portfolio():
    return Config(dict(orders=dict(title='Orders', yaxis_kwargs=dict(title='Price'), check_is_not_grouped=True, plot_func='orders.plot', tags=['portfolio', 'orders']), trades=dict(title='Trades', yaxis_kwargs=dict(title='Price'), check_is_not_grouped=True, plot_func='trades.plot', tags=['portfolio', 'trades']), trade_pnl=dict(title='Trade PnL', yaxis_kwargs=dict(title='Trade PnL'), check_is_not_grouped=True, plot_func='trades.plot_pnl', tags=['portfolio', 'trades']), asset_flow=dict(title='Asset Flow', yaxis_kwargs=dict(title='Asset flow'), check_is_not_grouped=True, plot_func='plot_asset_flow', pass_add_trace_kwargs=True, tags=['portfolio', 'assets']), cash_flow=dict(title='Cash Flow', yaxis_kwargs=dict(title='Cash flow'), plot_func='plot_cash_flow', pass_add_trace_kwargs=True, tags=['portfolio', 'cash']), assets=dict(title='Assets', yaxis_kwargs=dict(title='Assets'), check_is_not_grouped=True, plot_func='plot_assets', pass_add_trace_kwargs=True, tags=['portfolio', 'assets']), cash=dict(title='Cash', yaxis_kwargs=dict(title='Cash'), plot_func='plot_cash', pass_add_trace_kwargs=True, tags=['portfolio', 'cash']), asset_value=dict(title='Asset Value', yaxis_kwargs=dict(title='Asset value'), plot_func='plot_asset_value', pass_add_trace_kwargs=True, tags=['portfolio', 'assets', 'value']), value=dict(title='Value', yaxis_kwargs=dict(title='Value'), plot_func='plot_value', pass_add_trace_kwargs=True, tags=['portfolio', 'value']), cum_returns=dict(title='Cumulative Returns', yaxis_kwargs=dict(title='Cumulative returns'), plot_func='plot_cum_returns', pass_hline_shape_kwargs=True, pass_add_trace_kwargs=True, pass_xref=True, pass_yref=True, tags=['portfolio', 'returns']), drawdowns=dict(title='Drawdowns', yaxis_kwargs=dict(title='Value'), plot_func='plot_drawdowns', pass_add_trace_kwargs=True, pass_xref=True, pass_yref=True, tags=['portfolio', 'value', 'drawdowns']), underwater=dict(title='Underwater', yaxis_kwargs=dict(title='Drawdown'), plot_func='plot_underwater', pass_add_trace_kwargs=True, tags=['portfolio', 'value', 'drawdowns']), gross_exposure=dict(title='Gross Exposure', yaxis_kwargs=dict(title='Gross exposure'), plot_func='plot_gross_exposure', pass_add_trace_kwargs=True, tags=['portfolio', 'exposure']), net_exposure=dict(title='Net Exposure', yaxis_kwargs=dict(title='Net exposure'), plot_func='plot_net_exposure', pass_add_trace_kwargs=True, tags=['portfolio', 'exposure'])), copy_kwargs=dict(copy_mode='deep'))


def plot__decl__of__Portfolio():
    return PlotsBuilderMixin.plots


def subplots__of__Portfolio(self):
    return self._subplots
