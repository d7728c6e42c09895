"""Run a function in a forked copy of this process: what it declares and caches does not come back."""
import gc
import os
import pickle
import select
import signal
import sys
import time
import traceback


class ChildError(Exception):
    pass


def fork(fn, *a):
    """Start fn(*a) in a child; returns a handle for `join`."""
    rd, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            gc.disable()
            os.close(rd)
            signal.alarm(0)
            try:
                res = (True, fn(*a))
            except BaseException:
                res = (False, traceback.format_exc(limit=-8))
            try:
                data = pickle.dumps(res)
            except Exception:
                data = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(wr, "wb") as fp:
                fp.write(data)
        finally:
            os._exit(0)
    os.close(wr)
    return pid, rd


def join(handle, timeout=50):
    pid, rd = handle
    buf = b""
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                raise ChildError("timeout")
            part = os.read(rd, 1 << 20)
            if not part:
                break
            buf += part
    finally:
        os.close(rd)
        os.waitpid(pid, 0)
    if not buf:
        raise ChildError("died")
    ok, v = pickle.loads(buf)
    if not ok:
        raise ChildError(v)
    return v


def run(fn, *a, timeout=50):
    return join(fork(fn, *a), timeout)
