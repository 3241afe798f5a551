"""Reviewed reference definitions of vectorbt.messaging.telegram (functions as name__ref, methods as name__of__Class)."""
import asyncio
import inspect
import logging
import threading
from functools import partial, wraps
from telegram import __version__ as TG_VER
from vectorbt import _typing as tp
from vectorbt.utils.config import merge_dicts, get_func_kwargs, Configured
from vectorbt.utils.requests_ import text_to_giphy_url
from vectorbt.messaging.telegram import logger
