"""Simulation kernel: one integer -> one execution.

A *scenario* is a plain JSON value produced by a property module from one
PRNG; executing a scenario is a pure function of (scenario, code in /repo).
Everything random, timed or faulty inside an execution comes from the scenario.
"""
import hashlib
import json
import os
import random
import struct
import sys
import traceback
from collections import Counter

REPO = os.environ.get("VSIM_REPO", "/repo")
PKG = os.path.join(REPO, "allantools") + os.sep


class Violation(Exception):
    """A property does not hold.  `cls` names the kind of violation (the
    minimiser keeps it fixed), `key` identifies the offending call/site."""

    def __init__(self, cls, msg, key=""):
        super().__init__("%s: %s" % (cls, msg))
        self.cls, self.msg, self.key = cls, msg, key


class HarnessError(Exception):
    pass


class Hang(BaseException):
    """Code under test used far more processor time than any scenario needs."""


HANG = []       # where the processor-time alarm found this process


def cpu_alarm(limit):
    """Raise Hang when this process has used `limit` seconds of processor time
    (not wall time: a loaded machine is no hang), and again every second."""
    import signal

    def ring(sig, frame):
        where = "?"
        for f in [frame] + list(sys._current_frames().values()):
            while f is not None and where == "?":
                c = f.f_code
                if c.co_filename.startswith(PKG):
                    where = "%s:%s" % (os.path.basename(c.co_filename), c.co_name)
                f = f.f_back
        HANG.append(where)
        raise Hang(where)
    del HANG[:]
    signal.signal(signal.SIGPROF, ring)
    signal.setitimer(signal.ITIMER_PROF, limit, 1.0)


class SimCrash(BaseException):
    """The simulated process dies here (power cut / SIGKILL)."""


def derive(*parts):
    """Independent integer seed from a tuple of printable parts."""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(*parts):
    return random.Random(derive(*parts))


class Ctx(object):
    """Per-execution recorder: event log (hashed), fault and probe counters,
    simulated clock.  Never draws randomness, never reads a real clock."""

    def __init__(self, keep_log=False):
        self._h = hashlib.sha256()
        self.events = 0
        self.faults = Counter()
        self.probes = Counter()
        self.simtime = 0.0
        self.log = [] if keep_log else None
        self.sched_hash = ""
        self.checks = 0
        self.nontrivial = False

    def event(self, *fields):
        s = json.dumps([self.events] + [_plain(f) for f in fields], sort_keys=True)
        self.events += 1
        self._h.update(s.encode())
        if self.log is not None:
            self.log.append(s)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def ok(self, n=1):
        self.checks += n

    def digest(self):
        return self._h.hexdigest()[:24]


def _plain(v):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return struct.pack("<d", v).hex()
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, BaseException):
        return "%s" % type(v).__name__
    return digest_value(v)


def digest_value(v):
    """Short stable digest of numpy values / nested containers."""
    h = hashlib.sha256()

    def feed(x):
        import numpy as np
        if isinstance(x, np.ndarray):
            h.update(str(x.dtype).encode() + str(x.shape).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (list, tuple)):
            h.update(b"(%d" % len(x))
            for y in x:
                feed(y)
        elif isinstance(x, dict):
            for k in x:
                h.update(str(k).encode())
                feed(x[k])
        elif isinstance(x, float):
            h.update(struct.pack("<d", x))
        elif isinstance(x, np.generic):
            h.update(str(x.dtype).encode() + x.tobytes())
        elif isinstance(x, BaseException):
            h.update(type(x).__name__.encode())
        else:
            h.update(repr(x).encode())
    feed(v)
    return h.hexdigest()[:16]


def in_repo(tb):
    """Does this traceback pass through code under test?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG):
            return True
        tb = tb.tb_next
    return False


def where_in_repo(tb):
    out = "?"
    while tb is not None:
        c = tb.tb_frame.f_code
        if c.co_filename.startswith(PKG):
            out = "%s:%s" % (os.path.basename(c.co_filename), c.co_name)
        tb = tb.tb_next
    return out


def run_scenario(prop, scenario, keep_log=False):
    """Execute one scenario in this process.  Returns a JSON-able record."""
    import numpy as np
    np.random.seed(12345)
    random.seed(12345)
    ctx = Ctx(keep_log)
    rec = {"status": "ok"}
    try:
        prop.execute(scenario, ctx)
    except Violation as v:
        rec.update(status="violation", cls=v.cls, msg=v.msg, key=v.key)
    except HarnessError as e:
        rec.update(status="error", msg=traceback.format_exc())
    except BaseException as e:
        if isinstance(e, (Exception, KeyboardInterrupt)) and in_repo(e.__traceback__):
            rec.update(status="violation", cls="unexpected-exception:" + type(e).__name__,
                       msg="%r raised by %s" % (e, where_in_repo(e.__traceback__)),
                       key=where_in_repo(e.__traceback__),
                       tb=traceback.format_exc()[-1500:])
        else:
            rec.update(status="error", msg=traceback.format_exc())
    if HANG:
        inside = [w for w in HANG if w != "?"]
        rec = {"status": "error", "slow": True, "msg": "scenario exceeds its processor time outside the package"}
        if inside:
            rec = {"status": "violation", "cls": "hang", "key": inside[0],
                   "msg": "no end after the processor-time limit; running in %s" % inside[0]}
    if rec["status"] == "violation":
        ctx.event("violation", rec["cls"])
    rec.update(digest=ctx.digest(), events=ctx.events, faults=dict(ctx.faults),
               probes=dict(ctx.probes), simtime=ctx.simtime, sched=ctx.sched_hash,
               checks=ctx.checks, nontrivial=bool(ctx.nontrivial))
    if keep_log:
        rec["log"] = ctx.log
    return rec


# ---------------------------------------------------------------- values
def approx_same(a, b, rtol=1e-10, path=""):
    """None if a and b are the same value (structure, dtype kind, NaNs), else
    a description of the difference."""
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return "%s: %s vs %s" % (path, type(a).__name__, type(b).__name__)
        if a.shape != b.shape:
            return "%s: shape %s vs %s" % (path, a.shape, b.shape)
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            na, nb = np.isnan(a), np.isnan(b)
            if not np.array_equal(na, nb):
                return "%s: NaN pattern differs" % path
            A, B = a[~na], b[~nb]
            ia = np.isinf(A)
            if not (np.array_equal(ia, np.isinf(B)) and np.array_equal(A[ia], B[ia])):
                return "%s: inf pattern differs" % path
            A, B = A[~ia], B[~ia]
            if A.size:
                scale = max(np.max(np.abs(A)), np.max(np.abs(B)))
                bad = np.abs(A - B) > rtol * np.maximum(np.abs(B), 1e-4 * scale)
                if np.any(bad):
                    i = int(np.argmax(bad))
                    return "%s: value %r vs %r" % (path, A[i], B[i])
            return None
        return None if np.array_equal(a, b) else "%s: %r vs %r" % (path, a, b)
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return "%s: %r vs %r" % (path, type(a), type(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = approx_same(x, y, rtol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or list(a) != list(b):
            return "%s: keys %r vs %r" % (path, list(a), list(b))
        for k in a:
            d = approx_same(a[k], b[k], rtol, "%s[%r]" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (float, int, np.generic)) and isinstance(b, (float, int, np.generic)) \
            and not isinstance(a, bool) and not isinstance(b, bool):
        return approx_same(np.array([a], dtype=float), np.array([b], dtype=float), rtol, path)
    if type(a) is type(b) and (a is b or a == b):
        return None
    return "%s: %r vs %r" % (path, a, b)


def identical(a, b):
    """Bit-for-bit equality of arrays (NaN == NaN)."""
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
