"""Snapshot of the process-wide state a numerical library must not touch."""
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np


def _h(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


def rng_digest():
    s = np.random.get_state()
    return _h((s[0], s[1].tobytes(), s[2:]))


def fds():
    out = []
    for x in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            t = os.readlink("/proc/self/fd/" + x)
        except OSError:
            continue        # the listing's own descriptor
        # glibc reads /proc/sys/vm/overcommit_memory while an exited thread's
        # arena is torn down: transient, and not ours
        if not t.startswith(("/proc/", "/sys/")):
            out.append((int(x), t))
    return out


def thread_local():
    """What belongs to the calling thread (numpy keeps it in a context)."""
    e = np.geterr()
    return {"floating-point error handling": (tuple(sorted(e.items())), repr(np.geterrcall())),
            "print options": _h(sorted((k, repr(v)) for k, v in np.get_printoptions().items()))}


def process_wide(managed=0):
    return {"warning filters": [repr(f) for f in warnings.filters],
            "warning display": id(warnings.showwarning),
            "random stream": (rng_digest(), _h(random.getstate())),
            "standard output": (id(sys.stdout), id(sys.stderr), sys.stdout.closed),
            "working directory": (os.getcwd(), sorted(os.listdir("."))),
            "open files": fds(),
            "threads": threading.active_count() - managed,
            "environment": _h(sorted(os.environ.items())),
            "interpreter": (sys.getrecursionlimit(), gc.isenabled(), list(sys.path), id(sys.excepthook),
                            sys.getswitchinterval()),
            "signals": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
            "locale": locale.setlocale(locale.LC_ALL),
            "logging": (logging.root.level, len(logging.root.handlers), logging.root.disabled),
            "numpy buffer size": np.getbufsize()}


def changed(a, b):
    return ["%s: %r -> %r" % (k, short(a[k], b[k]), short(b[k], a[k])) for k in a if a[k] != b[k]]


def short(x, y):
    """Of a long listing only what the other one does not have."""
    return [v for v in x if v not in y] if isinstance(x, list) and isinstance(y, list) else x
