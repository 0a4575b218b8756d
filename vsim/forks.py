"""Pristine processes: run a thunk in a fork of this process, get its value."""
import contextlib
import os
import pickle
import re
import select
import signal
import sys
import time
import traceback

from .core import HANG, Hang, HarnessError, cpu_alarm

def cpu_limit(tier=None):
    """Processor seconds a scenario may use (the longest quick one needs 8 on
    an idle machine); runner.confirm_slow gives it three times as much."""
    if tier:
        os.environ["VSIM_CPU"] = {"quick": "40", "thorough": "120"}[tier]
    return float(os.environ.get("VSIM_CPU", "40"))


@contextlib.contextmanager
def more_time(factor):
    old = cpu_limit()
    os.environ["VSIM_CPU"] = str(factor * old)
    try:
        yield
    finally:
        os.environ["VSIM_CPU"] = str(old)


def fork_call(fn, timeout=120.0):
    """Run fn() in a forked child; return ("ok", value) | ("exc", type name,
    text) | ("error", text).  The child never returns to the caller's code."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                cpu_alarm(cpu_limit())
                out = ("ok", fn())
            except BaseException as e:
                out = ("exc", type(e).__name__, traceback.format_exc())
            try:
                data = pickle.dumps(out, protocol=4)
            except Exception:
                data = pickle.dumps(("error", traceback.format_exc()), protocol=4)
            _write_all(w, data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return ("error", "timed out after %.0f s" % timeout)
    data = b"".join(chunks)
    if not data:
        return ("error", "child died, status %d" % status)
    return pickle.loads(data)


def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view[:1 << 16])
        view = view[n:]


def pristine(fn, timeout=120.0):
    """Value of fn() computed in a pristine fork; exceptions come back as
    ("exc", name); harness trouble raises."""
    out = fork_call(fn, timeout)
    if out[0] == "error":
        raise HarnessError("pristine fork: " + out[1])
    if out[0] == "exc" and out[1] == "Hang":
        m = re.search(r"Hang: (\S+)\s*$", out[2])
        HANG.append(m.group(1) if m else "?")
        raise Hang(HANG[-1])
    return out
