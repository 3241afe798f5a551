"""Running independent obligations in forked worker processes.

Each job is a callable taking a context; what it reports is recorded in the worker and replayed, in the order of the
jobs, on the real context, so that results do not depend on scheduling.
"""
import multiprocessing
import os
import sys
from concurrent.futures import ProcessPoolExecutor

from .program import AnalysisError

_JOBS = []
_PROG = None


class Recorder:
    """Records the calls a job makes on its context."""

    def __init__(self, prog):
        self.prog = prog
        self.events = []

    def __getattr__(self, name):
        if name.startswith("_") or name not in ("rule", "ok", "violate", "unit", "unknown"):
            raise AttributeError(name)
        return lambda *a, **k: self.events.append((name, a, k))


def _one(i):
    sys.setrecursionlimit(20000)
    r = Recorder(_PROG)
    try:
        _JOBS[i](r)
    except AnalysisError as e:
        r.events.append(("error", (str(e),), {}))
    return r.events


def run_jobs(ctx, jobs):
    """jobs: callables taking a context."""
    global _JOBS, _PROG
    workers = min(int(os.environ.get("VSA_JOBS", "8")), os.cpu_count() or 1, len(jobs))
    results = None
    _JOBS, _PROG = list(jobs), ctx.prog
    if workers > 1 and not multiprocessing.current_process().daemon and not multiprocessing.parent_process():
        try:
            with ProcessPoolExecutor(workers, mp_context=multiprocessing.get_context("fork")) as ex:
                results = list(ex.map(_one, range(len(jobs)), chunksize=2))
        except Exception:
            results = None
    if results is None:
        results = [_one(i) for i in range(len(jobs))]
    for events in results:
        for name, a, k in events:
            if name == "error":
                raise AnalysisError(a[0])
            getattr(ctx, name)(*a, **k)
