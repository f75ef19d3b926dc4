"""Calls in a forked process: whatever they leave behind in this one is gone with it."""

import os
import pickle
import select
import signal
import time

_now = time.monotonic  # taken before the seams go in


class Died:
    """The process ended without an answer."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return self.why


def clean():
    """Whether JAX has not been started: only then a fork is safe."""
    from jax._src import xla_bridge

    return not xla_bridge._backends


def call(fn, timeout):
    """fn() in a forked process, its result or Died."""
    if not clean():
        raise RuntimeError("JAX has been started in this process: it cannot be forked")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:
            import traceback

            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks, end = [], _now() + timeout
    why = None
    while True:
        left = end - _now()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            why = f"no answer within {timeout} s"
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if why is None and status != 0:
        why = f"exit status {status}"
    return Died(why) if why else pickle.loads(b"".join(chunks))
