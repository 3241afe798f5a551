"""Reviewed reference definitions of vectorbt.data.updater (functions as name__ref, methods as name__of__Class)."""
import logging
from vectorbt import _typing as tp
from vectorbt.data.base import Data
from vectorbt.utils.config import Configured
from vectorbt.utils.schedule_ import ScheduleManager
from vectorbt.data.updater import logger, DataUpdater


def __init____of__DataUpdater(self, data, schedule_manager=None, **kwargs):
    Configured.__init__(self, data=data, schedule_manager=schedule_manager, **kwargs)
    self._data = data
    if schedule_manager is None:
        schedule_manager = ScheduleManager()
    self._schedule_manager = schedule_manager


def data__of__DataUpdater(self):
    return self._data


def schedule_manager__of__DataUpdater(self):
    return self._schedule_manager


def update__of__DataUpdater(self, **kwargs):
    self._data = self.data.update(**kwargs)
    self.update_config(data=self.data)
    new_index = self.data.wrapper.index
    logger.info(f'Updated data has {len(new_index)} rows from {new_index[0]} to {new_index[-1]}')


def update_every__of__DataUpdater(self, *args, to=None, tags=None, in_background=False, start_kwargs=None, **kwargs):
    if start_kwargs is None:
        start_kwargs = {}
    self.schedule_manager.every(*args, to=to, tags=tags).do(self.update, **kwargs)
    if in_background:
        self.schedule_manager.start_in_background(**start_kwargs)
    else:
        self.schedule_manager.start(**start_kwargs)
