"""Reviewed reference definitions of vectorbt.data.custom (functions as name__ref, methods as name__of__Class)."""
import time
import warnings
from functools import wraps
import numpy as np
import pandas as pd
from tqdm.auto import tqdm
from vectorbt import _typing as tp
from vectorbt.data.base import Data
from vectorbt.utils.config import merge_dicts, get_func_kwargs
from vectorbt.utils.datetime_ import get_utc_tz, get_local_tz, to_tzaware_datetime, datetime_to_ms
from vectorbt.data.custom import ClientT, ExchangeT, SyntheticData, generate_gbm_paths, GBMData, YFData, BinanceDataT, BinanceData, CCXTData, AlpacaData


@classmethod
def generate_symbol__of__SyntheticData(cls, symbol, index, **kwargs):
    raise NotImplementedError


@classmethod
def download_symbol__of__SyntheticData(cls, symbol, start=0, end='now', freq=None, date_range_kwargs=None, **kwargs):
    if date_range_kwargs is None:
        date_range_kwargs = {}
    index = pd.date_range(start=to_tzaware_datetime(start, tz=get_utc_tz()), end=to_tzaware_datetime(end, tz=get_utc_tz()), freq=freq, **date_range_kwargs)
    if len(index) == 0:
        raise ValueError('Date range is empty')
    return cls.generate_symbol(symbol, index, **kwargs)


def update_symbol__of__SyntheticData(self, symbol, **kwargs):
    download_kwargs = self.select_symbol_kwargs(symbol, self.download_kwargs)
    download_kwargs['start'] = self.data[symbol].index[-1]
    kwargs = merge_dicts(download_kwargs, kwargs)
    return self.download_symbol(symbol, **kwargs)


def generate_gbm_paths__ref(S0, mu, sigma, T, M, I, seed=None):
    if seed is not None:
        np.random.seed(seed)
    dt = float(T) / M
    paths = np.zeros((M + 1, I), np.float64)
    paths[0] = S0
    for t in range(1, M + 1):
        rand = np.random.standard_normal(I)
        paths[t] = paths[t - 1] * np.exp((mu - 0.5 * sigma ** 2) * dt + sigma * np.sqrt(dt) * rand)
    return paths


@classmethod
def generate_symbol__of__GBMData(cls, symbol, index, S0=100.0, mu=0.0, sigma=0.05, T=None, I=1, seed=None):
    if T is None:
        T = len(index)
    out = generate_gbm_paths(S0, mu, sigma, T, len(index), I, seed=seed)[1:]
    if out.shape[1] == 1:
        return pd.Series(out[:, 0], index=index)
    columns = pd.RangeIndex(stop=out.shape[1], name='path')
    return pd.DataFrame(out, index=index, columns=columns)


def update_symbol__of__GBMData(self, symbol, **kwargs):
    download_kwargs = self.select_symbol_kwargs(symbol, self.download_kwargs)
    download_kwargs['start'] = self.data[symbol].index[-1]
    _ = download_kwargs.pop('S0', None)
    S0 = self.data[symbol].iloc[-2]
    _ = download_kwargs.pop('T', None)
    download_kwargs['seed'] = None
    kwargs = merge_dicts(download_kwargs, kwargs)
    return self.download_symbol(symbol, S0=S0, **kwargs)


@classmethod
def download_symbol__of__YFData(cls, symbol, period='max', start=None, end=None, ticker_kwargs=None, **kwargs):
    import yfinance as yf
    if start is not None:
        start = to_tzaware_datetime(start, tz=get_local_tz())
    if end is not None:
        end = to_tzaware_datetime(end, tz=get_local_tz())
    if ticker_kwargs is None:
        ticker_kwargs = {}
    return yf.Ticker(symbol, **ticker_kwargs).history(period=period, start=start, end=end, **kwargs)


def update_symbol__of__YFData(self, symbol, **kwargs):
    download_kwargs = self.select_symbol_kwargs(symbol, self.download_kwargs)
    download_kwargs['start'] = self.data[symbol].index[-1]
    kwargs = merge_dicts(download_kwargs, kwargs)
    return self.download_symbol(symbol, **kwargs)


@classmethod
def download__of__BinanceData(cls, symbols, client=None, **kwargs):
    from binance.client import Client
    from vectorbt._settings import settings
    binance_cfg = settings['data']['binance']
    client_kwargs = dict()
    for k in get_func_kwargs(Client):
        if k in kwargs:
            client_kwargs[k] = kwargs.pop(k)
    client_kwargs = merge_dicts(binance_cfg, client_kwargs)
    if client is None:
        client = Client(**client_kwargs)
    return super(BinanceData, cls).download(symbols, client=client, **kwargs)


@classmethod
def download_symbol__of__BinanceData(cls, symbol, client=None, interval='1d', start=0, end='now UTC', delay=500, limit=500, show_progress=True, tqdm_kwargs=None):
    if client is None:
        raise ValueError('client must be provided')
    if tqdm_kwargs is None:
        tqdm_kwargs = {}
    start_ts = datetime_to_ms(to_tzaware_datetime(start, tz=get_utc_tz()))
    try:
        first_data = client.get_klines(symbol=symbol, interval=interval, limit=1, startTime=0, endTime=None)
        first_valid_ts = first_data[0][0]
        next_start_ts = start_ts = max(start_ts, first_valid_ts)
    except:
        next_start_ts = start_ts
    end_ts = datetime_to_ms(to_tzaware_datetime(end, tz=get_utc_tz()))

    def _ts_to_str(ts):
        return str(pd.Timestamp(to_tzaware_datetime(ts, tz=get_utc_tz())))
    data: tp.List[list] = []
    with tqdm(disable=not show_progress, **tqdm_kwargs) as pbar:
        pbar.set_description(_ts_to_str(start_ts))
        while True:
            next_data = client.get_klines(symbol=symbol, interval=interval, limit=limit, startTime=next_start_ts, endTime=end_ts)
            if len(data) > 0:
                next_data = list(filter(lambda d: next_start_ts < d[0] < end_ts, next_data))
            else:
                next_data = list(filter(lambda d: d[0] < end_ts, next_data))
            if not len(next_data):
                break
            data += next_data
            pbar.set_description('{} - {}'.format(_ts_to_str(start_ts), _ts_to_str(next_data[-1][0])))
            pbar.update(1)
            next_start_ts = next_data[-1][0]
            if delay is not None:
                time.sleep(delay / 1000)
    df = pd.DataFrame(data, columns=['Open time', 'Open', 'High', 'Low', 'Close', 'Volume', 'Close time', 'Quote volume', 'Number of trades', 'Taker base volume', 'Taker quote volume', 'Ignore'])
    df.index = pd.to_datetime(df['Open time'], unit='ms', utc=True)
    del df['Open time']
    df['Open'] = df['Open'].astype(float)
    df['High'] = df['High'].astype(float)
    df['Low'] = df['Low'].astype(float)
    df['Close'] = df['Close'].astype(float)
    df['Volume'] = df['Volume'].astype(float)
    df['Close time'] = pd.to_datetime(df['Close time'], unit='ms', utc=True)
    df['Quote volume'] = df['Quote volume'].astype(float)
    df['Number of trades'] = df['Number of trades'].astype(int)
    df['Taker base volume'] = df['Taker base volume'].astype(float)
    df['Taker quote volume'] = df['Taker quote volume'].astype(float)
    del df['Ignore']
    return df


def update_symbol__of__BinanceData(self, symbol, **kwargs):
    download_kwargs = self.select_symbol_kwargs(symbol, self.download_kwargs)
    download_kwargs['start'] = self.data[symbol].index[-1]
    download_kwargs['show_progress'] = False
    kwargs = merge_dicts(download_kwargs, kwargs)
    return self.download_symbol(symbol, **kwargs)


@classmethod
def download_symbol__of__CCXTData(cls, symbol, exchange='binance', config=None, timeframe='1d', start=0, end='now UTC', delay=None, limit=500, retries=3, show_progress=True, params=None, tqdm_kwargs=None):
    import ccxt
    from vectorbt._settings import settings
    ccxt_cfg = settings['data']['ccxt']
    if config is None:
        config = {}
    if tqdm_kwargs is None:
        tqdm_kwargs = {}
    if params is None:
        params = {}
    if isinstance(exchange, str):
        if not hasattr(ccxt, exchange):
            raise ValueError(f'Exchange {exchange} not found')
        default_config = {}
        for k, v in ccxt_cfg.items():
            if k in ccxt.exchanges:
                continue
            default_config[k] = v
        if exchange in ccxt_cfg:
            default_config = merge_dicts(default_config, ccxt_cfg[exchange])
        config = merge_dicts(default_config, config)
        exchange = getattr(ccxt, exchange)(config)
    elif len(config) > 0:
        raise ValueError('Cannot apply config after instantiation of the exchange')
    if not exchange.has['fetchOHLCV']:
        raise ValueError(f'Exchange {exchange} does not support OHLCV')
    if timeframe not in exchange.timeframes:
        raise ValueError(f'Exchange {exchange} does not support {timeframe} timeframe')
    if exchange.has['fetchOHLCV'] == 'emulated':
        warnings.warn('Using emulated OHLCV candles', stacklevel=2)

    def _retry(method):

        @wraps(method)
        def retry_method(*args, **kwargs):
            for i in range(retries):
                try:
                    return method(*args, **kwargs)
                except (ccxt.NetworkError, ccxt.ExchangeError) as e:
                    if i == retries - 1:
                        raise e
                if delay is not None:
                    time.sleep(delay / 1000)
        return retry_method

    @_retry
    def _fetch(_since, _limit):
        return exchange.fetch_ohlcv(symbol, timeframe=timeframe, since=_since, limit=_limit, params=params)
    start_ts = datetime_to_ms(to_tzaware_datetime(start, tz=get_utc_tz()))
    try:
        first_data = _fetch(0, 1)
        first_valid_ts = first_data[0][0]
        next_start_ts = start_ts = max(start_ts, first_valid_ts)
    except:
        next_start_ts = start_ts
    end_ts = datetime_to_ms(to_tzaware_datetime(end, tz=get_utc_tz()))

    def _ts_to_str(ts):
        return str(pd.Timestamp(to_tzaware_datetime(ts, tz=get_utc_tz())))
    data: tp.List[list] = []
    with tqdm(disable=not show_progress, **tqdm_kwargs) as pbar:
        pbar.set_description(_ts_to_str(start_ts))
        while True:
            next_data = _fetch(next_start_ts, limit)
            if len(data) > 0:
                next_data = list(filter(lambda d: next_start_ts < d[0] < end_ts, next_data))
            else:
                next_data = list(filter(lambda d: d[0] < end_ts, next_data))
            if not len(next_data):
                break
            data += next_data
            pbar.set_description('{} - {}'.format(_ts_to_str(start_ts), _ts_to_str(next_data[-1][0])))
            pbar.update(1)
            next_start_ts = next_data[-1][0]
            if delay is not None:
                time.sleep(delay / 1000)
    df = pd.DataFrame(data, columns=['Open time', 'Open', 'High', 'Low', 'Close', 'Volume'])
    df.index = pd.to_datetime(df['Open time'], unit='ms', utc=True)
    del df['Open time']
    df['Open'] = df['Open'].astype(float)
    df['High'] = df['High'].astype(float)
    df['Low'] = df['Low'].astype(float)
    df['Close'] = df['Close'].astype(float)
    df['Volume'] = df['Volume'].astype(float)
    return df


def update_symbol__of__CCXTData(self, symbol, **kwargs):
    download_kwargs = self.select_symbol_kwargs(symbol, self.download_kwargs)
    download_kwargs['start'] = self.data[symbol].index[-1]
    download_kwargs['show_progress'] = False
    kwargs = merge_dicts(download_kwargs, kwargs)
    return self.download_symbol(symbol, **kwargs)


@classmethod
def download_symbol__of__AlpacaData(cls, symbol, timeframe='1d', start=0, end='now UTC', adjustment='all', limit=500, feed=None, **kwargs):
    from vectorbt._settings import settings
    from alpaca.data.timeframe import TimeFrame, TimeFrameUnit
    from alpaca.data.requests import CryptoBarsRequest, StockBarsRequest
    from alpaca.data.historical import CryptoHistoricalDataClient, StockHistoricalDataClient
    alpaca_cfg = settings['data']['alpaca']
    if '/' in symbol:
        REST = CryptoHistoricalDataClient
    else:
        REST = StockHistoricalDataClient
    client_kwargs = dict()
    for k in get_func_kwargs(REST):
        if k in kwargs:
            client_kwargs[k] = kwargs.pop(k)
    client_kwargs = merge_dicts(alpaca_cfg, client_kwargs)
    client = REST(**client_kwargs)
    _timeframe_units = {'d': TimeFrameUnit.Day, 'h': TimeFrameUnit.Hour, 'm': TimeFrameUnit.Minute}
    if len(timeframe) < 2:
        raise ValueError('invalid timeframe')
    amount_str = timeframe[:-1]
    unit_str = timeframe[-1]
    if not amount_str.isnumeric() or unit_str not in _timeframe_units:
        raise ValueError('invalid timeframe')
    amount = int(amount_str)
    unit = _timeframe_units[unit_str]
    _timeframe = TimeFrame(amount, unit)
    start_ts = to_tzaware_datetime(start, tz=get_utc_tz()).isoformat()
    end_ts = to_tzaware_datetime(end, tz=get_utc_tz()).isoformat()
    if '/' in symbol:
        df = client.get_crypto_bars(CryptoBarsRequest(symbol_or_symbols=symbol, timeframe=_timeframe, start=start_ts, end=end_ts, limit=limit)).df
    else:
        df = client.get_stock_bars(StockBarsRequest(symbol_or_symbols=symbol, timeframe=_timeframe, start=start_ts, end=end_ts, adjustment=adjustment, limit=limit, feed=feed)).df
    df.drop(['trade_count', 'vwap'], axis=1, errors='ignore', inplace=True)
    df.rename(columns={'open': 'Open', 'high': 'High', 'low': 'Low', 'close': 'Close', 'volume': 'Volume'}, inplace=True)
    df['Open'] = df['Open'].astype(float)
    df['High'] = df['High'].astype(float)
    df['Low'] = df['Low'].astype(float)
    df['Close'] = df['Close'].astype(float)
    df['Volume'] = df['Volume'].astype(float)
    return df


def update_symbol__of__AlpacaData(self, symbol, **kwargs):
    download_kwargs = self.select_symbol_kwargs(symbol, self.download_kwargs)
    download_kwargs['start'] = self.data[symbol].index[-1]
    download_kwargs['show_progress'] = False
    kwargs = merge_dicts(download_kwargs, kwargs)
    return self.download_symbol(symbol, **kwargs)
