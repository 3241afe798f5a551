"""Reviewed places where an option is intentionally not handed on, not read, or replaced.  Keys name functions and options, never lines."""


def _acc():
    out = set()

    def add(f, *pairs):
        for g, q in pairs:
            out.add((f, g, q))
    W, CG = "base.array_wrapper.ArrayWrapper", "base.column_grouper.ColumnGrouper"
    P, GA, SA = "portfolio.base.Portfolio", "generic.accessors.GenericAccessor", "signals.accessors.SignalsAccessor"
    # the object has just been regrouped/resolved with group_by, so its own grouping is the requested one
    add(W + ".indexing_func_meta", (CG + ".is_grouped", "group_by"), (CG + ".get_group_lens", "group_by"),
        # the two row/column selection switches describe the indexing operation, not the wrapper they configure
        (W + ".__init__", "column_only_select"), (W + ".__init__", "group_select"))
    add(W + ".resolve", (CG + ".is_grouped", "group_by"))
    add("base.array_wrapper.Wrapping.select_one", (CG + ".is_grouped", "group_by"), (W + ".get_columns", "group_by"))
    add("base.array_wrapper.Wrapping.select_one._check_out_dim", (CG + ".is_grouped", "group_by"))
    # the array has been converted per raw already
    add("base.reshape_fns.repeat", ("base.reshape_fns.to_2d", "raw"))
    add("base.reshape_fns.tile", ("base.reshape_fns.to_2d", "raw"))
    # branch of ungrouped input: labels are the columns
    for m in ("min", "max", "mean", "median", "std", "sum", "count", "idxmin", "idxmax"):
        add(GA + "." + m, (W + ".wrap_reduced", "group_by"))
    add(GA + ".describe", (GA + ".reduce", "group_by"))
    # class_name of the factory is the indicator's, not the helper's
    add("indicators.factory.IndicatorFactory.__init__", ("base.indexing.build_param_indexer", "class_name"))
    # grouped result assembled from, or divided by, per-column results
    add(P + ".asset_value", (P + ".asset_value", "group_by"))
    add(P + ".benchmark_value", (P + ".get_init_cash", "group_by"))
    add(P + ".cash", (P + ".get_init_cash", "group_by"), (CG + ".get_group_lens", "group_by"))
    add(P + ".cash_flow", (P + ".cash_flow", "group_by"))
    add(P + ".gross_exposure", (P + ".asset_value", "group_by"))
    add(P + ".position_coverage", (P + ".position_mask", "group_by"))
    add(P + ".position_mask", (P + ".position_mask", "group_by"))
    add(P + ".total_profit", (P + ".total_profit", "group_by"))
    # the simulation's own groups (shared cash) matter here, whatever grouping is asked for
    for m in ("get_init_cash", "value", "returns"):
        add(P + "." + m, (CG + ".get_group_lens", "group_by"))
    # assets accumulate the flow of both directions, then select
    add(P + ".assets", (P + ".asset_flow", "direction"))
    # the function is applied to each column; grouping is handled by the apply_per_group branch
    add("records.base.Records.apply", ("records.col_mapper.ColumnMapper.get_col_map", "group_by"))
    add("records.mapped_array.MappedArray.apply", ("records.col_mapper.ColumnMapper.get_col_map", "group_by"))
    # full-size intermediate, grouped afterwards by to_mapped
    add(SA + ".index_mapped", (W + ".wrap", "group_by"))
    add(SA + ".norm_avg_index", (W + ".wrap_reduced", "group_by"), (SA + ".total", "group_by"))
    # the seed has been applied by the outer kernel; n of the helper is the number of gaps
    add("signals.nb.generate_rand_enex_nb", ("signals.nb.generate_rand_nb", "seed"), ("utils.array_.uniform_summing_to_one_nb", "n"))
    # inner attributes of a chain are always called
    add("utils.attr_.deep_getattr", ("utils.attr_.deep_getattr", "call_last_attr"))
    # engine-specific suffix defaults
    add("utils.checks.is_engine_compatible_func", ("utils.checks.is_numba_func", "func_suffix"), ("utils.checks.is_rust_func", "func_suffix"))
    # keyword mappings of the constructor are always merged deeply
    add("utils.config.Config.__init__", ("utils.config.merge_dicts", "nested"))
    add("utils.config.Config.__init__._resolve_param", ("utils.config.merge_dicts", "nested"))
    # reset is documented to work on protected configurations
    add("utils.config.Config.reset", ("utils.config.Config.clear", "force"), ("utils.config.Config.update", "force"))
    # inputs have been converted and copied up front
    add("utils.config.merge_dicts", ("utils.config.merge_dicts", "to_dict"), ("utils.config.merge_dicts", "copy_mode"))
    add("utils.math_.is_addition_zero_nb", ("utils.math_.is_close_nb", "b"))
    # a fresh copy has been taken at the outer level
    add("utils.template.deep_substitute", ("utils.template.deep_substitute", "make_copy"))
    return out


ACCEPTED = _acc()

# Parameters required by the protocol of a callback (passed positionally by the caller) that the callback does not need.
DEAD_OK = set()


def _dead(f, *params):
    for p in params:
        DEAD_OK.add((f, p))


for _f in ("nth", "nth_index", "min", "max", "mean", "median", "std", "sum", "count", "argmin", "argmax", "describe"):
    _dead(f"generic.nb.{_f}_reduce_nb", "col")
for _f in ("min", "max", "sum", "any"):
    _dead(f"generic.nb.{_f}_squeeze_nb", "col", "group")
# cache functions take the parameters of all calls and apply functions those of one call
_dead("indicators.nb.ma_apply_nb", "close", "adjust")
_dead("indicators.nb.mstd_apply_nb", "close", "adjust", "ddof")
_dead("indicators.nb.bb_cache_nb", "alphas")
_dead("indicators.nb.bb_apply_nb", "close", "adjust", "ddof")
_dead("indicators.nb.rsi_apply_nb", "close", "adjust")
_dead("indicators.nb.stoch_cache_nb", "close", "d_windows", "d_ewms", "adjust")
_dead("indicators.nb.stoch_apply_nb", "high", "low")
_dead("indicators.nb.macd_cache_nb", "signal_windows", "signal_ewms")
_dead("indicators.nb.macd_apply_nb", "close")
_dead("indicators.nb.atr_apply_nb", "high", "low", "close", "adjust")
for _f in ("start", "help", "chat_migration", "unknown"):
    _dead(f"messaging.telegram.TelegramBot.{_f}_callback", "context")
_dead("messaging.telegram.TelegramBot.error_callback", "args")
_dead("portfolio.nb.no_signal_func_nb", "c", "args")
_dead("portfolio.nb.no_adjust_sl_func_nb", "c", "args")
_dead("portfolio.nb.no_adjust_tp_func_nb", "c", "args")
_dead("portfolio.nb.no_pre_func_nb", "c", "args")
_dead("portfolio.nb.no_order_func_nb", "c", "args")
_dead("portfolio.nb.no_post_func_nb", "c", "args")
_dead("portfolio.nb.no_flex_order_func_nb", "c", "args")
_dead("portfolio.nb.i_group_any_reduce_nb", "i", "group")
_dead("portfolio.nb.group_mean_reduce_nb", "group")
_dead("records.nb.top_n_inout_map_nb", "col")
_dead("records.nb.bottom_n_inout_map_nb", "col")
_dead("returns.nb.total_return_apply_nb", "idxs", "col")
for _f in ("rand_chain_by_prob_apply", "stop_enex_apply", "ohlc_stop_enex_apply"):
    _dead("signals.dispatch." + _f, "until_next", "skip_until_exit")      # chained generation alternates by construction
# hooks meant to be overridden
_dead("utils.attr_.AttrResolver.resolve_self", "cond_kwargs", "custom_arg_names", "impacts_caching", "silence_warnings")
_dead("utils.attr_.AttrResolver.pre_resolve_attr", "final_kwargs")
_dead("utils.attr_.AttrResolver.post_resolve_attr", "attr", "final_kwargs")
_dead("portfolio.base.Portfolio.post_resolve_attr", "attr")
_dead("data.base.Data.indexing_func", "kwargs")
_dead("data.custom.GBMData.generate_symbol", "symbol")     # protocol: one path is generated per symbol
_dead("utils.config.Pickleable.dumps", "kwargs")
_dead("utils.config.Pickleable.loads", "kwargs")
_dead("records.mapped_array.MappedArray.top_n_mask", "kwargs")      # no lower layer declares options
_dead("records.mapped_array.MappedArray.bottom_n_mask", "kwargs")

FALSY_OK = {("utils.requests_.requests_retry_session", "session")}     # an object, never falsy on purpose

SWAP_OK = set()

# value is already grouped, so grouping it again must be switched off whatever the caller's wrapper options say
OVERRULED_OK = {("portfolio.base.Portfolio.get_drawdowns", "wrapper_kwargs")}
