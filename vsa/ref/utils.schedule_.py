"""Reviewed reference definitions of vectorbt.utils.schedule_ (functions as name__ref, methods as name__of__Class)."""
import asyncio
import inspect
import logging
import time
from datetime import datetime, timedelta, time as dt_time
from schedule import Scheduler, Job, CancelJob
from vectorbt import _typing as tp
from vectorbt.utils import checks
from vectorbt.utils.datetime_ import tzaware_to_naive_time
from vectorbt.utils.schedule_ import logger, CancelledError, AsyncJob, AsyncScheduler, ScheduleManager


def every__of__AsyncScheduler(self, interval=1):
    job = AsyncJob(interval, self)
    return job


def units__decl__of__ScheduleManager():
    return ('second', 'seconds', 'minute', 'minutes', 'hour', 'hours', 'day', 'days', 'week', 'weeks')


def weekdays__decl__of__ScheduleManager():
    return ('monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday')


def __init____of__ScheduleManager(self, scheduler=None):
    if scheduler is None:
        scheduler = AsyncScheduler()
    checks.assert_instance_of(scheduler, AsyncScheduler)
    self._scheduler = scheduler
    self._async_task = None


def scheduler__of__ScheduleManager(self):
    return self._scheduler


def async_task__of__ScheduleManager(self):
    return self._async_task


def every__of__ScheduleManager(self, *args, to=None, tags=None):
    interval = 1
    unit = None
    start_day = None
    at = None

    def _is_arg_interval(arg):
        return isinstance(arg, (int, timedelta))

    def _is_arg_unit(arg):
        return isinstance(arg, str) and arg in self.units

    def _is_arg_start_day(arg):
        return isinstance(arg, str) and arg in self.weekdays

    def _is_arg_at(arg):
        return isinstance(arg, str) and ':' in arg or isinstance(arg, dt_time)
    expected_args = ['interval', 'unit', 'start_day', 'at']
    for i, arg in enumerate(args):
        if 'interval' in expected_args and _is_arg_interval(arg):
            interval = arg
            expected_args = expected_args[expected_args.index('interval') + 1:]
            continue
        if 'unit' in expected_args and _is_arg_unit(arg):
            unit = arg
            expected_args = expected_args[expected_args.index('unit') + 1:]
            continue
        if 'start_day' in expected_args and _is_arg_start_day(arg):
            start_day = arg
            expected_args = expected_args[expected_args.index('start_day') + 1:]
            continue
        if 'at' in expected_args and _is_arg_at(arg):
            at = arg
            expected_args = expected_args[expected_args.index('at') + 1:]
            continue
        raise ValueError(f'Arg at index {i} is unexpected')
    if at is not None:
        if unit is None and start_day is None:
            unit = 'days'
    if unit is None and start_day is None:
        unit = 'seconds'
    job = self.scheduler.every(interval)
    if unit is not None:
        job = getattr(job, unit)
    if start_day is not None:
        job = getattr(job, start_day)
    if at is not None:
        if isinstance(at, dt_time):
            if job.unit == 'days' or job.start_day:
                if at.tzinfo is not None:
                    at = tzaware_to_naive_time(at, None)
            at = at.isoformat()
            if job.unit == 'hours':
                at = ':'.join(at.split(':')[1:])
            if job.unit == 'minutes':
                at = ':' + at.split(':')[2]
        job = job.at(at)
    if to is not None:
        job = job.to(to)
    if tags is not None:
        if not isinstance(tags, tuple):
            tags = (tags,)
        job = job.tag(*tags)
    return job


def start__of__ScheduleManager(self, sleep=1):
    logger.info('Starting schedule manager with jobs %s', str(self.scheduler.jobs))
    try:
        while True:
            self.scheduler.run_pending()
            time.sleep(sleep)
    except (KeyboardInterrupt, asyncio.CancelledError):
        logger.info('Stopping schedule manager')


def done_callback__of__ScheduleManager(self, async_task):
    logger.info(async_task)


def start_in_background__of__ScheduleManager(self, **kwargs):
    async_task = asyncio.create_task(self.async_start(**kwargs))
    async_task.add_done_callback(self.done_callback)
    logger.info(async_task)
    self._async_task = async_task


def async_task_running__of__ScheduleManager(self):
    return self.async_task is not None and (not self.async_task.done())


def stop__of__ScheduleManager(self):
    if self.async_task_running:
        self.async_task.cancel()
