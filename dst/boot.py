"""Seams.  Imported before anything else in a worker process.

Every source of nondeterminism aiomisc can reach through the Python standard
library is redirected to the simulated world (see world.py) *before* asyncio,
threading clients, logging or aiomisc are imported, so it does not matter how
the code under test spells its imports.
"""
import sys

sys.modules['_asyncio'] = None          # pure-Python asyncio: no hidden C state
sys.modules['uvloop'] = None            # uvloop is real I/O; not simulable

import os

REPO = os.environ.get('DST_REPO', '/repo')
os.environ['AIOMISC_USE_UVLOOP'] = '0'
for _k in list(os.environ):
    if _k.startswith('AIOMISC_') and _k != 'AIOMISC_USE_UVLOOP':
        del os.environ[_k]
for _k in ('NOTIFY_SOCKET', 'WATCHDOG_USEC'):
    os.environ.pop(_k, None)

import _thread
import time
import zlib
import threading
import signal as _signal_mod

from . import world
from .world import SimLock, real

# ---------------------------------------------------------------- time
real.time = time.time
real.monotonic = time.monotonic
real.sleep = time.sleep
real.perf_counter = time.perf_counter


def _mono_ns():
    w = world.W
    return w.tick_clock() if w is not None else 10 ** 12


def _wall_ns():
    w = world.W
    return w.tick_clock() + w.wall_offset if w is not None else 1700000000 * 10 ** 9


time.monotonic = lambda: _mono_ns() / 1e9
time.monotonic_ns = _mono_ns
time.perf_counter = lambda: _mono_ns() / 1e9
time.perf_counter_ns = _mono_ns
time.time = lambda: _wall_ns() / 1e9
time.time_ns = _wall_ns
time.process_time = lambda: _mono_ns() / 1e9
time.thread_time = lambda: _mono_ns() / 1e9


def _sleep(secs):
    w = world.W
    if w is None:
        return
    if secs < 0:
        raise ValueError('sleep length must be non-negative')
    w.sleep(secs)


time.sleep = _sleep
_real_localtime, _real_gmtime = time.localtime, time.gmtime
os.environ['TZ'] = 'UTC'
time.tzset()
time.localtime = lambda s=None: _real_localtime(time.time() if s is None else s)
time.gmtime = lambda s=None: _real_gmtime(time.time() if s is None else s)

import datetime as _dt

_RealDT = _dt.datetime


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _RealDT)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _RealDT)


class SimDateTime(_RealDT, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(time.time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(time.time(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(time.time())


SimDateTime.__name__ = SimDateTime.__qualname__ = 'datetime'
SimDateTime.__module__ = 'datetime'
_dt.datetime = SimDateTime

# ---------------------------------------------------------------- threads
threading._allocate_lock = SimLock
threading.Lock = SimLock
threading._CRLock = None
threading.RLock = threading._PyRLock
threading._start_new_thread = world.start_new_thread
threading._set_sentinel = world.set_sentinel
threading.get_ident = world.get_ident
threading.get_native_id = world.get_ident
threading._main_thread._ident = 1
threading._main_thread._native_id = 1
threading._active.clear()
threading._active[1] = threading._main_thread
threading._active_limbo_lock = threading.RLock()
threading._shutdown_locks_lock = SimLock()
threading._main_thread._tstate_lock = None
threading._main_thread._started._cond = threading.Condition(SimLock())
threading._main_thread._started._flag = True
_thread.start_new_thread = world.start_new_thread
_thread.start_new = world.start_new_thread

import queue

queue.SimpleQueue = queue._PySimpleQueue
_orig_py_sq = queue._PySimpleQueue

# ---------------------------------------------------------------- hashing
import random


def _sim_hash(self):
    try:
        h = self.__dict__.get('_sim_h')
    except AttributeError:              # slots: a constant keeps sets in insertion order
        return 7
    if h is None:
        w = world.W
        h = self.__dict__['_sim_h'] = w.next_hash() if w is not None else id(self) >> 4
    return h


def _ordered(base):
    """A set of functions (hashed by address) whose order is decided by the seed."""
    class SimSet(base):
        def __new__(cls, items=()):
            self = base.__new__(cls, items) if base is frozenset else base.__new__(cls)
            self._o = {}
            return self

        def __init__(self, items=()):
            items = list(items)
            if base is set:
                super().__init__(items)
            self._o.update(dict.fromkeys(items))

        def add(self, x):
            super().add(x)
            self._o[x] = None

        def discard(self, x):
            super().discard(x)
            self._o.pop(x, None)

        def remove(self, x):
            super().remove(x)
            self._o.pop(x, None)

        def __iter__(self):
            seed = world.W.hash_seed if world.W is not None else 0
            keys = [getattr(x, '__module__', '') + getattr(x, '__qualname__', '') for x in self._o]
            order = sorted(range(len(keys)), key=lambda i: (zlib.crc32(f'{seed}{keys[i]}'.encode()), i))
            items = list(self._o)
            return iter([items[i] for i in order])
    SimSet.__name__ = SimSet.__qualname__ = base.__name__
    return SimSet


SimSet, SimFrozenSet = _ordered(set), _ordered(frozenset)
threading.Thread.__hash__ = _sim_hash
threading.Event.__hash__ = _sim_hash

# ---------------------------------------------------------------- randomness
real.urandom = os.urandom


def _urandom(n):
    w = world.W
    if w is None:
        return bytes(n)
    return w.entropy.randbytes(n)


os.urandom = _urandom
random._urandom = _urandom

# ---------------------------------------------------------------- signals, processes
real.kill = os.kill
real.getpid = os.getpid
real.fork = os.fork
real._exit = os._exit
real.signal = _signal_mod.signal

from . import proc

proc.install(os, _signal_mod)

# ---------------------------------------------------------------- sockets
import socket

from . import net

net.install(socket)

# ---------------------------------------------------------------- files
from . import fs

fs.install()

# ---------------------------------------------------------------- asyncio
import concurrent.futures
import concurrent.futures._base
import selectors

concurrent.futures._base.Future.__hash__ = _sim_hash
selectors.DefaultSelector = net.SimSelector
import asyncio
import asyncio.selector_events
import asyncio.unix_events

assert asyncio.Future.__module__ == 'asyncio.futures' and 'asyncio.futures' in sys.modules
assert asyncio.Future is asyncio.futures._PyFuture
asyncio.futures.Future.__hash__ = _sim_hash
asyncio.Handle.__hash__ = object.__hash__

from . import loop as simloop

simloop.install()

import logging

proc.install_logging(logging)
logging.raiseExceptions = False
logging.lastResort = None

sys.path.insert(0, REPO)
