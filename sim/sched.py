"""Seeded cooperative scheduler for real threads.

Exactly one simulated task runs at a time.  A task may be preempted at every
bytecode (or line) of code in the `wax` package, at every operation on a
simulated lock, at every simulated sleep and at explicit `point()` calls.  Which
task runs next is decided only by the policy: a seeded PRNG while exploring (each
decision is recorded), or the recorded list while replaying.
"""

import _thread
import gc
import sys
import types
import zlib

REPO_SRC = "/repo/src/wax/"

_ACTIVE = None
_TASKS = {}  # thread ident -> Task


class HarnessError(Exception):
    """The harness itself is wrong; never a verdict about the code under test."""


class SimKilled(BaseException):
    """Raised inside a parked task to end a run."""


class Deadlock(Exception):
    pass


class StepCap(Exception):
    pass


def active():
    return _ACTIVE


def current():
    """The scheduler, when called from one of its tasks; else None."""
    if _ACTIVE is None:
        return None
    t = _TASKS.get(_thread.get_ident())
    return _ACTIVE if t is not None and t.sched is _ACTIVE else None


def point(label=""):
    s = current()
    if s is not None:
        s.yield_point()


class Task:
    def __init__(self, sched, idx, fn, name, daemon=False):
        self.sched, self.idx, self.fn, self.name = sched, idx, fn, name
        self.daemon = bool(daemon)
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = "ready"  # ready | blocked | sleeping | done
        self.waiting = None
        self.wake_at = None
        self.timed_out = False
        self.exc = None
        self.result = None
        self.kill = False
        self.exited = _thread.allocate_lock()
        self.exited.acquire()

    @property
    def done(self):
        return self.state == "done"


class Policy:
    """Seeded exploration, or exact replay of recorded decisions.

    decisions: {step: task index} - at that step the given task runs next.
    Steps without a decision keep the running task (or, when it cannot run, the
    lowest runnable index).

    hot: None, every point is a preemption with probability p; or a share of the
    code locations which is drawn for the run: a task is preempted at these most of
    the time and hardly anywhere else, so that others run far between two of its lines.
    """

    def __init__(self, rng=None, p=0.1, decisions=None, hot=None):
        self.rng, self.p = rng, p
        self.hot = hot
        self.salt = "" if hot is None or rng is None else str(rng.random())
        self.known = {}
        self.replay = None if decisions is None else {int(k): int(v) for k, v in decisions}
        self.record = []

    def chance(self, site):
        if self.hot is None or site is None:
            return self.p
        c = self.known.get(site)
        if c is None:
            code, where = site
            h = zlib.crc32(f"{code.co_filename.rsplit('/', 1)[-1]}:{code.co_qualname}:{where}:{self.salt}".encode())
            c = self.known[site] = 0.6 if h < self.hot * 2**32 else 0.003
        return c

    def choose(self, step, cur, ready, site=None):
        """cur: index of running task if it can go on, else None. ready: sorted indices."""
        if self.replay is not None:
            want = self.replay.get(step)
            if want is not None and want in ready:
                pick = want
            elif cur is not None:
                pick = cur
            else:
                pick = ready[0]
        else:
            if cur is not None and (len(ready) == 1 or self.rng.random() >= self.chance(site)):
                pick = cur
            else:
                others = [i for i in ready if i != cur]
                pick = others[int(self.rng.random() * len(others))] if others else ready[0]
        if cur is None and pick != ready[0] or cur is not None and pick != cur:
            self.record.append([step, pick])
        return pick


_monitored = False


def _codes(code, seen):
    if code in seen:
        return
    seen.add(code)
    for c in code.co_consts:
        if type(c) is type(code):
            _codes(c, seen)


def _monitor():
    """Preemption points: every line and every instruction of code in REPO_SRC.

    All such code is instrumented once per process, before any task runs, so that
    the points do not depend on what ran before in this process.
    """
    global _monitored
    if _monitored:
        return
    _monitored = True
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "sim")
    ev = mon.events
    done = set()

    def on(grain):
        def point(code, where):
            if _ACTIVE is None or _ACTIVE.granularity != grain:
                return
            t = _TASKS.get(_thread.get_ident())
            if t is not None and t.sched is _ACTIVE:
                _ACTIVE.yield_point(code, where)

        return point

    def add(code):
        todo = set()
        _codes(code, todo)
        for c in todo - done:
            done.add(c)
            mon.set_local_events(tool, c, ev.LINE | ev.INSTRUCTION)

    def started(code, where):
        if code.co_filename.startswith(REPO_SRC) and code not in done:
            add(code)
        return mon.DISABLE

    mon.register_callback(tool, ev.LINE, on("line"))
    mon.register_callback(tool, ev.INSTRUCTION, on("opcode"))
    mon.register_callback(tool, ev.PY_START, started)
    for f in gc.get_objects():
        if type(f) is types.FunctionType and f.__code__.co_filename.startswith(REPO_SRC):
            add(f.__code__)
    mon.set_events(tool, ev.PY_START)


class Scheduler:
    def __init__(self, policy, env, granularity="line", step_cap=200_000, pool=None):
        self.policy, self.env = policy, env
        self.granularity, self.step_cap = granularity, step_cap
        self.tasks = []
        self.n_spawned = 0
        self.step = 0
        self.switches = 0
        self.cur_task = None
        self.ctrl = _thread.allocate_lock()
        self.ctrl.acquire()
        self.failure = None
        if granularity != "none":
            _monitor()
        self.sites = set()  # (file, line) pairs at which a preemption happened
        self.hook = None  # called at every point of the package: (task, code, where); may raise

    # ---- public
    def spawn(self, fn, name=None, daemon=False):
        t = Task(self, len(self.tasks), fn, name or f"t{len(self.tasks)}", daemon)
        self.tasks.append(t)
        self.n_spawned += 1
        _thread.start_new_thread(self._boot, (t,))
        return t

    def run(self):
        """Run until every non-daemon task is done. Raises Deadlock / StepCap."""
        global _ACTIVE
        if _ACTIVE is not None:
            raise HarnessError("nested scheduler")
        _ACTIVE = self
        try:
            while self.failure is None:
                if all(t.done or t.daemon for t in self.tasks):
                    break
                nxt = self._pick(None)
                if nxt is None:
                    break
                self._resume(nxt)
                self.ctrl.acquire()
            if self.failure is not None:
                raise self.failure
        finally:
            self._kill_all()
            _ACTIVE = None

    def yield_point(self, code=None, where=None):
        t = self.cur_task
        if t.kill:
            raise SimKilled
        self.step += 1
        if self.step > self.step_cap:
            self.failure = StepCap(f"no end after {self.step_cap} steps")
            self._park(t)
            return
        ready = [x.idx for x in self.tasks if x.state == "ready"]
        if len(ready) > 1 or self.policy.replay is not None:
            pick = self.policy.choose(self.step, t.idx, ready, None if code is None else (code, where))
            if pick != t.idx:
                self.switches += 1
                if code is not None:
                    self.sites.add((code.co_filename.rsplit("/", 1)[-1], code.co_name, where))
                self._handoff(t, self.tasks[pick])
        if self.hook is not None and code is not None:
            self.hook(t, code, where)

    def sleep(self, d):
        t = self.cur_task
        self._check(t)
        if d != d or d < 0:
            raise ValueError("sleep length must be non-negative")
        t.state, t.wake_at = "sleeping", self.env.clock.mono + d
        self._block(t)

    def block_on(self, t, waiting, timeout=None):
        """Park task t until `wake(waiting)`; returns False on timeout."""
        self._check(t)
        t.state, t.waiting, t.timed_out = "blocked", waiting, False
        t.wake_at = None if timeout is None else self.env.clock.mono + max(timeout, 0)
        self._block(t)
        t.waiting = None
        return not t.timed_out

    def wake(self, waiting, n=None):
        for x in self.tasks:
            if n == 0:
                break
            if x.state == "blocked" and x.waiting is waiting:
                x.state, x.wake_at, x.timed_out = "ready", None, False
                if n is not None:
                    n -= 1

    def join(self, target, timeout=None):
        t = self.cur_task
        while not target.done:
            if not self.block_on(t, target, timeout):
                return

    # ---- internals
    def _check(self, t):
        if t.kill:
            raise SimKilled

    def _block(self, t):
        self.step += 1
        if self.step > self.step_cap:
            self.failure = StepCap(f"no end after {self.step_cap} steps")
            self._park(t)
        nxt = self._pick(None)
        if nxt is t:
            return
        if nxt is None:
            self._park(t)
            return
        self._handoff(t, nxt, forced=True)

    def _pick(self, cur):
        """Next runnable task when the running one cannot go on; advances time."""
        while True:
            ready = [x.idx for x in self.tasks if x.state == "ready"]
            if ready:
                return self.tasks[self.policy.choose(self.step, None, ready)]
            timed = [x for x in self.tasks if x.wake_at is not None and not x.done]
            if not timed:
                if all(x.done or x.daemon for x in self.tasks):
                    return None
                stuck = [f"{x.name} waits" for x in self.tasks if not x.done]
                self.failure = self.failure or Deadlock("; ".join(stuck))
                return None
            if all(x.done or x.daemon for x in self.tasks):
                return None
            at = min(x.wake_at for x in timed)
            if at > self.env.clock.mono:
                self.env.clock.mono = at
            for x in timed:
                if x.wake_at <= self.env.clock.mono:
                    x.timed_out = x.state == "blocked"
                    x.state, x.wake_at = "ready", None

    def _resume(self, t):
        self.cur_task = t
        t.baton.release()

    def _handoff(self, t, nxt, forced=False):
        self._resume(nxt)
        t.baton.acquire()
        if t.kill:
            raise SimKilled
        self.cur_task = t

    def _park(self, t):
        """Give control back to the controller; only ever resumed to be killed."""
        self.ctrl.release()
        t.baton.acquire()
        if t.kill:
            raise SimKilled

    def _boot(self, t):
        t.baton.acquire()
        _TASKS[_thread.get_ident()] = t
        try:
            if not t.kill:
                t.result = t.fn()
        except SimKilled:
            pass
        except BaseException as e:  # noqa: BLE001 - recorded, judged by the check
            t.exc = e
        finally:
            t.state = "done"
            _TASKS.pop(_thread.get_ident(), None)
            if t.kill:
                t.exited.release()
            else:
                self.wake(t)
                nxt = None
                if self.failure is None and not all(x.done or x.daemon for x in self.tasks):
                    self.step += 1
                    nxt = self._pick(None)
                t.exited.release()
                if nxt is None:
                    self.ctrl.release()
                else:
                    self._resume(nxt)

    def _kill_all(self):
        for t in self.tasks:
            if not t.done:
                t.kill = True
                self.cur_task = t
                t.baton.release()
                if not t.exited.acquire(True, 20):
                    raise HarnessError(f"task {t.name} cannot be ended")


# ------------------------------------------------------------------ primitives


class SimRLock:
    reentrant = True

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s, me = current(), _thread.get_ident()
        if s is None:
            if self._owner not in (None, me) or (self._owner == me and not self.reentrant):
                raise HarnessError("lock contention outside of the simulation")
            self._owner = me
            self._count += 1
            return True
        s.yield_point()
        if self._owner == me and self.reentrant:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            if not s.block_on(s.cur_task, self, None if timeout is None or timeout < 0 else timeout):
                return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner is None or (self.reentrant and self._owner != _thread.get_ident()):
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s = current()
            if s is not None:
                s.wake(self)
                t = s.cur_task
                if not t.kill:
                    s.yield_point()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    # cannot be pickled or copied, as a real lock
    def __reduce__(self):
        raise TypeError(f"cannot pickle '{type(self).__name__}' object")


class SimLock(SimRLock):
    reentrant = False


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._gen = []

    def __enter__(self):
        self._lock.acquire()
        return self

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        s = current()
        if s is None:
            raise HarnessError("wait outside of the simulation")
        tok = object()
        self._gen.append(tok)
        n = self._lock._count
        for _ in range(n):
            self._lock.release()
        ok = True
        if tok in self._gen:
            ok = s.block_on(s.cur_task, tok, timeout)
            if not ok and tok in self._gen:
                self._gen.remove(tok)
        for _ in range(n):
            self._lock.acquire()
        return ok

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout):
                return pred()
        return True

    def notify(self, n=1):
        s = current()
        for tok in self._gen[:n]:
            self._gen.remove(tok)
            if s is not None:
                s.wake(tok)

    def notify_all(self):
        self.notify(len(self._gen))


class SimEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        point()
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        s = current()
        if s is not None:
            s.wake(self)
            s.yield_point()

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        s = current()
        if s is None:
            if not self._flag and timeout is None:
                raise HarnessError("wait outside of the simulation")
            return self._flag
        s.yield_point()
        while not self._flag:
            if not s.block_on(s.cur_task, self, timeout):
                break
        return self._flag


class SimSemaphore:
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        s = current()
        if s is not None:
            s.yield_point()
        while self._value == 0:
            if not blocking:
                return False
            if s is None:
                raise HarnessError("semaphore wait outside of the simulation")
            if not s.block_on(s.cur_task, self, timeout):
                return False
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        s = current()
        if s is not None:
            s.wake(self, n)
            s.yield_point()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

