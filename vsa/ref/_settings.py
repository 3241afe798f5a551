"""Reviewed reference definitions of vectorbt._settings (functions as name__ref, methods as name__of__Class)."""
import json
import pkgutil
import numpy as np
import plotly.graph_objects as go
import plotly.io as pio
from vectorbt.utils.config import Config
from vectorbt.utils.datetime_ import get_local_tz, get_utc_tz
from vectorbt.utils.decorators import CacheCondition
from vectorbt.utils.template import Sub, RepEval
from vectorbt._settings import SettingsConfig, settings


def register_template__of__SettingsConfig(self, theme):
    pio.templates['vbt_' + theme] = go.layout.Template(self['plotting']['themes'][theme]['template'])


def register_templates__of__SettingsConfig(self):
    for theme in self['plotting']['themes']:
        self.register_template(theme)


def set_theme__of__SettingsConfig(self, theme):
    self.register_template(theme)
    self['plotting']['color_schema'].update(self['plotting']['themes'][theme]['color_schema'])
    self['plotting']['layout']['template'] = 'vbt_' + theme


def reset_theme__of__SettingsConfig(self):
    self.set_theme('light')


def settings__decl():
    return SettingsConfig(dict(engine='auto', numba=dict(check_func_type=True, check_func_suffix=False), config=Config(), configured=dict(config=Config(dict(readonly=True))), caching=dict(enabled=True, whitelist=[CacheCondition(base_cls='ArrayWrapper'), CacheCondition(base_cls='ColumnGrouper'), CacheCondition(base_cls='ColumnMapper')], blacklist=[]), broadcasting=dict(align_index=False, align_columns=True, index_from='strict', columns_from='stack', ignore_sr_names=True, drop_duplicates=True, keep='last', drop_redundant=True, ignore_default=True), array_wrapper=dict(column_only_select=False, group_select=True, freq=None, silence_warnings=False), datetime=dict(naive_tz=get_local_tz(), to_py_timezone=True), data=dict(tz_localize=get_utc_tz(), tz_convert=get_utc_tz(), missing_index='nan', missing_columns='raise', alpaca=Config(dict(api_key=None, secret_key=None)), binance=Config(dict(api_key=None, api_secret=None)), ccxt=Config(dict(enableRateLimit=True)), stats=Config(), plots=Config()), plotting=dict(use_widgets=True, show_kwargs=Config(), color_schema=Config(dict(increasing='#1b9e76', decreasing='#d95f02')), contrast_color_schema=Config(dict(blue='#4285F4', orange='#FFAA00', green='#37B13F', red='#EA4335', gray='#E2E2E2')), themes=dict(light=dict(color_schema=Config(dict(blue='#1f77b4', orange='#ff7f0e', green='#2ca02c', red='#dc3912', purple='#9467bd', brown='#8c564b', pink='#e377c2', gray='#7f7f7f', yellow='#bcbd22', cyan='#17becf')), template=Config(json.loads(pkgutil.get_data(__name__, 'templates/light.json')))), dark=dict(color_schema=Config(dict(blue='#1f77b4', orange='#ff7f0e', green='#2ca02c', red='#dc3912', purple='#9467bd', brown='#8c564b', pink='#e377c2', gray='#7f7f7f', yellow='#bcbd22', cyan='#17becf')), template=Config(json.loads(pkgutil.get_data(__name__, 'templates/dark.json')))), seaborn=dict(color_schema=Config(dict(blue='#1f77b4', orange='#ff7f0e', green='#2ca02c', red='#dc3912', purple='#9467bd', brown='#8c564b', pink='#e377c2', gray='#7f7f7f', yellow='#bcbd22', cyan='#17becf')), template=Config(json.loads(pkgutil.get_data(__name__, 'templates/seaborn.json'))))), layout=Config(dict(width=700, height=350, margin=dict(t=30, b=30, l=30, r=30), legend=dict(orientation='h', yanchor='bottom', y=1.02, xanchor='right', x=1, traceorder='normal')))), stats_builder=dict(metrics='all', tags='all', silence_warnings=False, template_mapping=Config(), filters=Config(dict(is_not_grouped=dict(filter_func=lambda self, metric_settings: not self.wrapper.grouper.is_grouped(group_by=metric_settings['group_by']), warning_message=Sub("Metric '$metric_name' does not support grouped data")), has_freq=dict(filter_func=lambda self, metric_settings: self.wrapper.freq is not None, warning_message=Sub("Metric '$metric_name' requires frequency to be set")))), settings=Config(dict(to_timedelta=None, use_caching=True)), metric_settings=Config()), plots_builder=dict(subplots='all', tags='all', silence_warnings=False, template_mapping=Config(), filters=Config(dict(is_not_grouped=dict(filter_func=lambda self, subplot_settings: not self.wrapper.grouper.is_grouped(group_by=subplot_settings['group_by']), warning_message=Sub("Subplot '$subplot_name' does not support grouped data")), has_freq=dict(filter_func=lambda self, subplot_settings: self.wrapper.freq is not None, warning_message=Sub("Subplot '$subplot_name' requires frequency to be set")))), settings=Config(dict(use_caching=True, hline_shape_kwargs=dict(type='line', line=dict(color='gray', dash='dash')))), subplot_settings=Config(), show_titles=True, hide_id_labels=True, group_id_labels=True, make_subplots_kwargs=Config(), layout_kwargs=Config()), generic=dict(stats=Config(dict(filters=dict(has_mapping=dict(filter_func=lambda self, metric_settings: metric_settings.get('mapping', self.mapping) is not None)), settings=dict(incl_all_keys=False))), plots=Config()), ranges=dict(stats=Config(), plots=Config()), drawdowns=dict(stats=Config(dict(settings=dict(incl_active=False))), plots=Config()), ohlcv=dict(plot_type='OHLC', column_names=dict(open='Open', high='High', low='Low', close='Close', volume='Volume'), stats=Config(), plots=Config()), signals=dict(stats=Config(dict(filters=dict(silent_has_other=dict(filter_func=lambda self, metric_settings: metric_settings.get('other', None) is not None)), settings=dict(other=None, other_name='Other', from_other=False))), plots=Config()), returns=dict(year_freq='365 days', defaults=Config(dict(start_value=0.0, window=10, minp=None, ddof=1, risk_free=0.0, levy_alpha=2.0, required_return=0.0, cutoff=0.05)), stats=Config(dict(filters=dict(has_year_freq=dict(filter_func=lambda self, metric_settings: self.year_freq is not None, warning_message=Sub("Metric '$metric_name' requires year frequency to be set")), has_benchmark_rets=dict(filter_func=lambda self, metric_settings: metric_settings.get('benchmark_rets', self.benchmark_rets) is not None, warning_message=Sub("Metric '$metric_name' requires benchmark_rets to be set"))), settings=dict(check_is_not_grouped=True))), plots=Config()), qs_adapter=dict(defaults=Config()), records=dict(stats=Config(), plots=Config()), mapped_array=dict(stats=Config(dict(filters=dict(has_mapping=dict(filter_func=lambda self, metric_settings: metric_settings.get('mapping', self.mapping) is not None)), settings=dict(incl_all_keys=False))), plots=Config()), orders=dict(stats=Config(), plots=Config()), trades=dict(stats=Config(dict(settings=dict(incl_open=False), template_mapping=dict(incl_open_tags=RepEval("['open', 'closed'] if incl_open else ['closed']")))), plots=Config()), logs=dict(stats=Config()), portfolio=dict(call_seq='default', init_cash=100.0, size=np.inf, size_type='amount', fees=0.0, fixed_fees=0.0, slippage=0.0, reject_prob=0.0, min_size=1e-08, max_size=np.inf, size_granularity=np.nan, lock_cash=False, allow_partial=True, raise_reject=False, val_price=np.inf, accumulate=False, sl_stop=np.nan, sl_trail=False, tp_stop=np.nan, stop_entry_price='close', stop_exit_price='stoplimit', stop_conflict_mode='exit', upon_stop_exit='close', upon_stop_update='override', use_stops=None, log=False, upon_long_conflict='ignore', upon_short_conflict='ignore', upon_dir_conflict='ignore', upon_opposite_entry='reversereduce', signal_direction='longonly', order_direction='both', cash_sharing=False, call_pre_segment=False, call_post_segment=False, ffill_val_price=True, update_value=False, fill_pos_record=True, init_temp_records=False, row_wise=False, flexible=False, use_numba=True, seed=None, freq=None, attach_call_seq=False, fillna_close=True, trades_type='exittrades', stats=Config(dict(filters=dict(has_year_freq=dict(filter_func=lambda self, metric_settings: metric_settings['year_freq'] is not None, warning_message=Sub("Metric '$metric_name' requires year frequency to be set"))), settings=dict(use_asset_returns=False, incl_open=False), template_mapping=dict(incl_open_tags=RepEval("['open', 'closed'] if incl_open else ['closed']")))), plots=Config(dict(subplots=['orders', 'trade_pnl', 'cum_returns'], settings=dict(use_asset_returns=False)))), messaging=dict(telegram=Config(dict(token=None, use_context=True, persistence='telegram_bot.pickle', defaults=Config(), drop_pending_updates=True)), giphy=dict(api_key=None, weirdness=5))), copy_kwargs=dict(copy_mode='deep'), frozen_keys=True, nested=True, convert_dicts=Config)
