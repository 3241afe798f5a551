"""Reviewed reference definitions of vectorbt.utils.datetime_ (functions as name__ref, methods as name__of__Class)."""
from datetime import datetime, timezone, timedelta, tzinfo, time
import dateparser
import numpy as np
import pandas as pd
import pytz
from vectorbt import _typing as tp
from vectorbt.utils.datetime_ import DatetimeIndexes, freq_to_timedelta, get_utc_tz, get_local_tz, convert_tzaware_time, tzaware_to_naive_time, naive_to_tzaware_time, convert_naive_time, is_tz_aware, to_timezone, to_tzaware_datetime, datetime_to_ms, interval_to_ms


def DatetimeIndexes__decl():
    return (pd.DatetimeIndex, pd.TimedeltaIndex, pd.PeriodIndex)


def freq_to_timedelta__ref(arg):
    if isinstance(arg, str) and (not arg[0].isdigit()):
        return pd.Timedelta(1, unit=arg)
    if isinstance(arg, pd.DateOffset):
        return pd.Timedelta(arg.nanos)
    return pd.Timedelta(arg)


def get_utc_tz__ref():
    return timezone.utc


def get_local_tz__ref():
    return timezone(datetime.now(timezone.utc).astimezone().utcoffset())


def convert_tzaware_time__ref(t, tz_out):
    return datetime.combine(datetime.today(), t).astimezone(tz_out).timetz()


def tzaware_to_naive_time__ref(t, tz_out):
    return datetime.combine(datetime.today(), t).astimezone(tz_out).time()


def naive_to_tzaware_time__ref(t, tz_out):
    return datetime.combine(datetime.today(), t).astimezone(tz_out).time().replace(tzinfo=tz_out)


def convert_naive_time__ref(t, tz_out):
    return datetime.combine(datetime.today(), t).astimezone(tz_out).time()


def is_tz_aware__ref(dt):
    tz = dt.tzinfo
    if tz is None:
        return False
    return tz.utcoffset(datetime.now()) is not None


def to_timezone__ref(tz, to_py_timezone=None, **kwargs):
    from vectorbt._settings import settings
    datetime_cfg = settings['datetime']
    if tz is None:
        return get_local_tz()
    if to_py_timezone is None:
        to_py_timezone = datetime_cfg['to_py_timezone']
    if isinstance(tz, str):
        try:
            tz = pytz.timezone(tz)
        except pytz.UnknownTimeZoneError:
            dt = dateparser.parse('now %s' % tz, **kwargs)
            if dt is not None:
                tz = dt.tzinfo
    if isinstance(tz, (int, float)):
        tz = timezone(timedelta(hours=tz))
    if isinstance(tz, timedelta):
        tz = timezone(tz)
    if isinstance(tz, tzinfo):
        if to_py_timezone:
            return timezone(tz.utcoffset(datetime.now()))
        return tz
    raise TypeError("Couldn't parse the timezone")


def to_tzaware_datetime__ref(dt_like, naive_tz=None, tz=None, **kwargs):
    from vectorbt._settings import settings
    datetime_cfg = settings['datetime']
    if naive_tz is None:
        naive_tz = datetime_cfg['naive_tz']
    if isinstance(dt_like, float):
        dt = datetime.fromtimestamp(dt_like, timezone.utc)
    elif isinstance(dt_like, int):
        if len(str(dt_like)) > 10:
            dt = datetime.fromtimestamp(dt_like / 10 ** (len(str(dt_like)) - 10), timezone.utc)
        else:
            dt = datetime.fromtimestamp(dt_like, timezone.utc)
    elif isinstance(dt_like, str):
        dt = dateparser.parse(dt_like, **kwargs)
    elif isinstance(dt_like, pd.Timestamp):
        dt = dt_like.to_pydatetime()
    elif isinstance(dt_like, np.datetime64):
        dt = pd.Timestamp(dt_like).to_pydatetime()
    else:
        dt = dt_like
    if dt is None:
        raise ValueError("Couldn't parse the datetime")
    if not is_tz_aware(dt):
        dt = dt.replace(tzinfo=to_timezone(naive_tz))
    else:
        dt = dt.replace(tzinfo=to_timezone(dt.tzinfo))
    if tz is not None:
        dt = dt.astimezone(to_timezone(tz))
    return dt


def datetime_to_ms__ref(dt):
    return int(dt.timestamp() * 1000.0)


def interval_to_ms__ref(interval):
    seconds_per_unit = {'m': 60, 'h': 60 * 60, 'd': 24 * 60 * 60, 'w': 7 * 24 * 60 * 60}
    try:
        return int(interval[:-1]) * seconds_per_unit[interval[-1]] * 1000
    except (ValueError, KeyError):
        return None
