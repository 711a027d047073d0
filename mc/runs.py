# -*- coding: utf-8 -*-
"""
Controlled stand-ins for whole runs: the methods, the worker pool, the clock
"""
import contextlib
import hashlib
import io
import itertools
import multiprocessing
import pickle
import sys
from pathlib import Path

import arrow

from mc.core import patched

import disc_solver.utils  # pylint: disable=unused-import
from disc_solver.solve import SONIC_METHOD_MAP

METHODS = dict(SONIC_METHOD_MAP)
REAL_POOL = multiprocessing.Pool
REAL_STDOUT = sys.stdout
REAL_STDERR = sys.stderr


@contextlib.contextmanager
def methods(function=None, **functions):
    """Replace all methods by function(name), or the ones given"""
    if function is not None:
        functions = {name: function(name) for name in METHODS}
    with patched(*[
        (METHODS[name], func) for name, func in functions.items()
    ]):
        yield


@contextlib.contextmanager
def clock(*times):
    """Let the clock give these times, the last one for ever"""
    times = [arrow.get(t) for t in times]
    state = {"n": 0}

    def now(*args, **kwargs):
        state["n"] += 1
        return times[min(state["n"], len(times)) - 1]
    orig = arrow.now
    arrow.now = now
    try:
        with patched((orig, now)):
            yield
    finally:
        arrow.now = orig


@contextlib.contextmanager
def captured_stdout():
    """Standard output, however the code gets hold of it"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), patched(
        (REAL_STDOUT, out), (REAL_STDERR, io.StringIO())
    ):
        yield out


def orders(n, workers):
    """All orders in which n tasks can finish with that many workers"""
    def go(waiting, done):
        if not waiting:
            yield done
            return
        for i in range(min(workers, len(waiting))):
            yield from go(waiting[:i] + waiting[i + 1:], done + [waiting[i]])
    return go(list(range(n)), [])


class ControlledPool:
    """
    A pool of workers which finish their tasks in a given order.  Tasks and
    results are copied, as they are between processes.
    """
    def __init__(self, order, log=None):
        self.order = order
        self.log = log if log is not None else []
        self.closed = False

    def __call__(self, processes=None, *args, **kwargs):
        self.log.append(("workers", processes))
        return self

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed = True

    def close(self):
        """No more tasks"""
        self.closed = True
        self.log.append("close")

    def join(self):
        """Wait for the workers"""
        if not self.closed:
            raise ValueError("Pool is still running")
        self.log.append("join")

    def terminate(self):
        """Stop the workers"""
        self.closed = True
        self.log.append("terminate")

    def _run(self, func, iterable, star=False):
        """Run all, giving (index, ok, result) in the order they finish"""
        if self.closed:
            raise ValueError("Pool not running")
        tasks = [pickle.dumps((func, item)) for item in iterable]
        order = self.order if len(self.order) == len(tasks) else range(
            len(tasks)
        )
        for index in order:
            func_, item = pickle.loads(tasks[index])
            self.log.append(("task", index))
            try:
                res = func_(*item) if star else func_(item)
                yield index, True, pickle.loads(pickle.dumps(res))
            except Exception as e:  # pylint: disable=broad-except
                yield index, False, e

    def _get(self, ok, res):
        if not ok:
            raise res
        return res

    def imap(self, func, iterable, chunksize=1):
        """Results in the order of the tasks"""
        done = {i: (ok, res) for i, ok, res in self._run(func, iterable)}
        for i in sorted(done):
            yield self._get(*done[i])

    def imap_unordered(self, func, iterable, chunksize=1):
        """Results in the order they finish"""
        for _, ok, res in self._run(func, iterable):
            yield self._get(ok, res)

    def map(self, func, iterable, chunksize=None):
        """List of results"""
        return list(self.imap(func, iterable))

    def starmap(self, func, iterable, chunksize=None):
        """List of results"""
        done = {
            i: (ok, res) for i, ok, res in self._run(func, iterable, True)
        }
        return [self._get(*done[i]) for i in sorted(done)]

    def map_async(self, func, iterable, chunksize=None, callback=None):
        """List of results, later"""
        return _Later(lambda: self.map(func, iterable), callback)

    def apply(self, func, args=(), kwds=None):
        """One task"""
        func, args, kwds = pickle.loads(pickle.dumps((func, args, kwds or {})))
        return func(*args, **kwds)

    def apply_async(self, func, args=(), kwds=None, callback=None):
        """One task, later"""
        return _Later(lambda: self.apply(func, args, kwds), callback)

    @contextlib.contextmanager
    def installed(self):
        """Context in which the code uses this"""
        orig = multiprocessing.Pool
        multiprocessing.Pool = self
        try:
            with patched((REAL_POOL, self)):
                yield self
        finally:
            multiprocessing.Pool = orig


class _Later:
    def __init__(self, func, callback):
        try:
            self.res = (True, func())
            if callback:
                callback(self.res[1])
        except Exception as e:  # pylint: disable=broad-except
            self.res = (False, e)

    def get(self, timeout=None):
        """The result"""
        if not self.res[0]:
            raise self.res[1]
        return self.res[1]

    def wait(self, timeout=None):
        """It is done"""

    def ready(self):
        """It is done"""
        return True

    def successful(self):
        """Whether it raised"""
        return self.res[0]


def allow_workers():
    """Let this process have workers of its own"""
    # the workers running the checks are daemons, which cannot
    multiprocessing.current_process()._config["daemon"] = False


def digest(path):
    """Of the contents of a file"""
    return hashlib.sha256(Path(path).read_bytes()).hexdigest()


def write_config(path, **values):
    """Write a configuration file"""
    initial = ("γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_H",
               "η_A")
    with open(path, "w", encoding="utf8") as f:
        for section, inside in (("config", False), ("initial", True)):
            f.write("[{}]\n".format(section))
            for key, val in values.items():
                if (key in initial) is inside:
                    f.write("{} = {}\n".format(key, val))


def subsets(items):
    """All subsets"""
    items = list(items)
    for n in range(len(items) + 1):
        yield from itertools.combinations(items, n)
