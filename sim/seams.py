"""Seams: everything nondeterministic that code of the `wax` package can reach.

`install()` runs before `wax` is imported.  It replaces, for callers inside the
`wax` package only (every other caller gets the real thing):

  * clocks            time.time / monotonic / perf_counter / process_time (+ _ns), time.sleep
  * threads, locks    threading.Thread / Timer / Lock / RLock / Condition / Event / Semaphore
  * process metrics   psutil.Process / virtual_memory, gc.get_objects / get_stats, tracemalloc
  * console           builtins.input, os.system, warnings are left alone
  * files             builtins.open for files written below the run's scratch directory (any caller)

The caller test is on the calling frame's module name, so it does not matter how
the code under test spells the import, nor from which function it calls.
"""

import _thread
import builtins
import gc as _gc
import io
import os
import sys
import threading
import time
import tracemalloc

import psutil

from . import sched

REAL = {
    "time": time.time,
    "monotonic": time.monotonic,
    "perf_counter": time.perf_counter,
    "sleep": time.sleep,
    "open": builtins.open,
    "input": builtins.input,
    "Thread": threading.Thread,
    "Lock": threading.Lock,
    "RLock": threading.RLock,
}

_installed = False


class Env:
    """The simulated environment of one run. `ENV` is the current one or None."""

    def __init__(self, clock=None):
        self.clock = clock or SimClock()
        self.proc = SimProc()
        self.fs = None  # a faultfs.FaultFS, or None = real files only
        self.input_script = None  # callable () -> str, may raise
        self.spawn_fail = 0  # that many thread starts fail
        self.gc_count = 1000
        self.traced = 0
        self.calls = {}

    def count(self, what):
        self.calls[what] = self.calls.get(what, 0) + 1


ENV = None


def set_env(env):
    global ENV
    ENV = env


class SimClock:
    """Discrete simulated time. wall = mono + offset; jumps change the offset."""

    EPOCH = 1_600_000_000.0

    def __init__(self, tick=1e-6):
        self.mono = 0.0
        self.offset = self.EPOCH
        self.tick = tick
        self.jumps = 0

    def wall(self):
        self.mono += self.tick
        return self.mono + self.offset

    def monotonic(self):
        self.mono += self.tick
        return self.mono

    def advance(self, d):
        self.mono += d

    def jump(self, d):
        self.offset += d
        self.jumps += 1


class SimProc:
    """What psutil shows: memory readings follow a script set by the scenario."""

    def __init__(self):
        self.rss = 100 * 1024 * 1024
        self.total = 8 * 1024**3
        self.cpu = 10.0
        self.fail = None  # exception to raise from the next readings

    def read_rss(self):
        if self.fail is not None:
            e = self.fail
            raise e
        return self.rss


class _MemInfo:
    def __init__(self, rss):
        self.rss = rss
        self.vms = rss * 2
        self.shared = 0


class _VirtMem:
    def __init__(self, total, used):
        self.total = total
        self.used = used
        self.available = max(total - used, 0)
        self.free = self.available
        self.percent = 100.0 * used / total


class SimProcessHandle:
    def __init__(self, pid=None):
        self.pid = pid or 1

    def memory_info(self):
        ENV.count("psutil.memory_info")
        return _MemInfo(ENV.proc.read_rss())

    def memory_full_info(self):
        return self.memory_info()

    def memory_percent(self):
        return 100.0 * ENV.proc.read_rss() / ENV.proc.total

    def cpu_percent(self, interval=None):
        ENV.count("psutil.cpu_percent")
        ENV.proc.read_rss()
        return ENV.proc.cpu

    def num_threads(self):
        return 1

    def __getattr__(self, name):
        raise AttributeError(name)


def _from_wax(depth=2):
    g = sys._getframe(depth).f_globals.get("__name__", "")
    return g == "wax" or g.startswith("wax.")


def _sim_active():
    return ENV is not None


def install():
    global _installed
    if _installed:
        return
    _installed = True
    rt, rm, rp, rs = time.time, time.monotonic, time.perf_counter, time.sleep
    rpt = time.process_time
    rtn, rmn, rpn = time.time_ns, time.monotonic_ns, time.perf_counter_ns

    def f_time():
        if ENV is not None and _from_wax():
            ENV.count("clock")
            return ENV.clock.wall()
        return rt()

    def f_monotonic():
        if ENV is not None and _from_wax():
            ENV.count("clock")
            return ENV.clock.monotonic()
        return rm()

    def f_perf_counter():
        if ENV is not None and _from_wax():
            ENV.count("clock")
            return ENV.clock.monotonic()
        return rp()

    def f_process_time():
        if ENV is not None and _from_wax():
            return ENV.clock.monotonic()
        return rpt()

    def f_time_ns():
        if ENV is not None and _from_wax():
            return int(ENV.clock.wall() * 1e9)
        return rtn()

    def f_monotonic_ns():
        if ENV is not None and _from_wax():
            return int(ENV.clock.monotonic() * 1e9)
        return rmn()

    def f_perf_counter_ns():
        if ENV is not None and _from_wax():
            return int(ENV.clock.monotonic() * 1e9)
        return rpn()

    def f_sleep(d):
        if ENV is not None and _from_wax():
            ENV.count("sleep")
            s = sched.current()
            if s is not None:
                s.sleep(d)
            else:
                ENV.clock.advance(max(d, 0))
            return None
        return rs(d)

    time.time, time.monotonic, time.perf_counter, time.sleep = (
        f_time,
        f_monotonic,
        f_perf_counter,
        f_sleep,
    )
    time.process_time = f_process_time
    time.time_ns, time.monotonic_ns, time.perf_counter_ns = f_time_ns, f_monotonic_ns, f_perf_counter_ns

    # --- threads and locks
    rThread, rLock, rRLock = threading.Thread, threading.Lock, threading.RLock
    rCond, rEvent, rSem, rBSem = (
        threading.Condition,
        threading.Event,
        threading.Semaphore,
        threading.BoundedSemaphore,
    )

    def Lock():
        return sched.SimLock() if _from_wax() else rLock()

    def RLock(*a):
        return sched.SimRLock() if _from_wax() else rRLock()

    def Condition(lock=None):
        return sched.SimCondition(lock) if _from_wax() else rCond(lock)

    def Event():
        return sched.SimEvent() if _from_wax() else rEvent()

    def Semaphore(value=1):
        return sched.SimSemaphore(value) if _from_wax() else rSem(value)

    def BoundedSemaphore(value=1):
        return sched.SimSemaphore(value) if _from_wax() else rBSem(value)

    threading.Lock, threading.RLock = Lock, RLock
    # the originals are classes that other libraries subclass, so keep them classes
    class _CondMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (rCond, sched.SimCondition))

    class _EventMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (rEvent, sched.SimEvent))

    class ConditionC(rCond, metaclass=_CondMeta):
        def __new__(cls, lock=None):
            if cls is ConditionC and _from_wax():
                return sched.SimCondition(lock)
            return super().__new__(cls)

    class EventC(rEvent, metaclass=_EventMeta):
        def __new__(cls):
            if cls is EventC and _from_wax():
                return sched.SimEvent()
            return super().__new__(cls)

    class SemaphoreC(rSem):
        def __new__(cls, value=1):
            if cls is SemaphoreC and _from_wax():
                return sched.SimSemaphore(value)
            return super().__new__(cls)

    threading.Condition, threading.Event, threading.Semaphore = ConditionC, EventC, SemaphoreC

    class SimAwareThread(rThread):
        """Real thread outside the simulation, simulated task inside it."""

        def __init__(self, *a, daemon=None, **k):
            s = sched.current()
            if daemon is None and s is not None:
                daemon = s.cur_task.daemon
            rThread.__init__(self, *a, daemon=daemon, **k)  # also called for _DummyThread

        def start(self):
            s = sched.active()
            if s is not None and (_from_wax() or sched.current() is not None):
                ENV.count("thread.start")
                if ENV.spawn_fail:
                    ENV.spawn_fail -= 1
                    ENV.count("thread.start-failed")
                    raise RuntimeError("can't start new thread")
                if getattr(self, "_sim_task", None) is not None:
                    raise RuntimeError("threads can only be started once")

                def body():
                    me = _thread.get_ident()
                    threading._active[me] = self  # what current_thread() returns
                    try:
                        self.run()
                    finally:
                        threading._active.pop(me, None)

                self._sim_task = s.spawn(body, name=f"T:{s.n_spawned}", daemon=self.daemon)
                return
            return super().start()

        def join(self, timeout=None):
            t = getattr(self, "_sim_task", None)
            if t is not None:
                cur = sched.current()
                if cur is None:
                    raise sched.HarnessError("join outside of the simulation")
                if cur.cur_task is t:
                    raise RuntimeError("cannot join current thread")
                cur.join(t, timeout)
                return
            if sched.active() is not None and not self._started.is_set():
                raise RuntimeError("cannot join thread before it is started")
            return super().join(timeout)

        def is_alive(self):
            t = getattr(self, "_sim_task", None)
            if t is not None:
                return not t.done
            return super().is_alive()

    threading.Thread = SimAwareThread

    # --- process metrics
    rProcess, rVM = psutil.Process, psutil.virtual_memory

    class ProcessC(rProcess):
        def __new__(cls, *a, **k):
            if ENV is not None and _from_wax():
                return SimProcessHandle(*a, **k)
            return super().__new__(cls)

    def virtual_memory():
        if ENV is not None and _from_wax():
            return _VirtMem(ENV.proc.total, ENV.proc.read_rss())
        return rVM()

    psutil.Process = ProcessC
    psutil.virtual_memory = virtual_memory

    r_objs, r_stats, r_collect = _gc.get_objects, _gc.get_stats, _gc.collect

    def get_objects(*a, **k):
        if ENV is not None and _from_wax():
            return range(ENV.gc_count)
        return r_objs(*a, **k)

    def get_stats():
        if ENV is not None and _from_wax():
            return [{"collections": 1, "collected": 0, "uncollectable": 0}] * 3
        return r_stats()

    def collect(*a, **k):
        if ENV is not None and _from_wax():
            return 0
        return r_collect(*a, **k)

    _gc.get_objects, _gc.get_stats, _gc.collect = get_objects, get_stats, collect

    r_start, r_get, r_tstop = (
        tracemalloc.start,
        tracemalloc.get_traced_memory,
        tracemalloc.stop,
    )

    def t_start(*a, **k):
        if _from_wax():
            if ENV is not None:
                ENV.count("tracemalloc.start")
            return None
        return r_start(*a, **k)

    def t_get():
        if _from_wax():
            n = ENV.traced if ENV is not None else 0
            return (n, n)
        return r_get()

    def t_stop():
        if _from_wax():
            return None
        return r_tstop()

    tracemalloc.start, tracemalloc.get_traced_memory, tracemalloc.stop = t_start, t_get, t_stop

    # --- console and files
    r_input, r_open, r_system = builtins.input, builtins.open, os.system

    def f_input(prompt=""):
        if ENV is not None and _from_wax():
            ENV.count("input")
            if ENV.input_script is None:
                raise EOFError
            return ENV.input_script()
        return r_input(prompt)

    def f_open(file, mode="r", *a, **k):
        if ENV is not None and ENV.fs is not None and ENV.fs.owns(file, mode):
            ENV.count("open")
            return ENV.fs.open(file, mode, *a, **k)
        return r_open(file, mode, *a, **k)

    def f_system(cmd):
        if _from_wax():
            if ENV is not None:
                ENV.count("os.system")
            return 0
        return r_system(cmd)

    builtins.input, builtins.open, os.system = f_input, f_open, f_system
    io.open = f_open
