"""Deterministic thread scheduler.

Real threads run the real code, but exactly one holds the baton.  A switch can
happen only where sys.monitoring reports an event (source line, or bytecode
instruction) in a file of the package under test, or where simulated locks
block; which thread runs next there is decided by the scenario alone:

  preempts : list of [step, k]      at global step `step` give the baton to the
                                    k-th runnable other thread
  pre      : list of [step, k] attached to one operation: the same, at that
                                    operation's step-th traced event
  fault    : [step, kind] attached to one operation: raise at that operation's
                                    step-th traced event (or the first one
                                    after it that is no hand-over point, see
                                    boundary_lines)
             [k, "alloc-call"]      the operation's k-th call into numpy or
                                    scipy fails to allocate
  scope    : base names of the package files that are traced (default all)

With an empty list threads run one after another to completion.
"""
import ast
import hashlib
import sys
import threading
import types
import _thread

from .core import PKG, HarnessError, Violation, SimCrash

_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock
ACTIVE = None   # scheduler currently running, if any
TOOL = 4        # sys.monitoring tool number


class SimLock(object):
    """Cooperative stand-in for locks the package creates (none today)."""

    def __init__(self, reentrant=False):
        self._owner, self._n, self._re = None, 0, reentrant

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.%s' object" % ("RLock" if self._re else "lock"))

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._owner is not None and not (self._re and self._owner == me):
            if not blocking:
                return False
            s = ACTIVE
            if s is None or not s.block(self):
                raise Violation("deadlock", "thread blocks forever on a lock")
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _lock_factory(real, reentrant):
    def make(*a, **k):
        f = sys._getframe(1)
        if f.f_code.co_filename.startswith(PKG):
            return SimLock(reentrant)
        return real(*a, **k)
    return make


def install_lock_seam():
    threading.Lock = _lock_factory(_REAL_LOCK, False)
    threading.RLock = _lock_factory(_REAL_RLOCK, True)


class _T(object):
    __slots__ = ("tid", "fn", "sem", "done", "exc", "lstep", "blocked", "thread", "fault", "cfault", "fired",
                 "where", "pre", "calls")


class Sched(object):
    def __init__(self, ctx, preempts=(), grain="line", max_steps=20000000, scope=None, callfaults=False):
        self.ctx, self.grain, self.max_steps, self.callfaults = ctx, grain, max_steps, callfaults
        self.scope = None if not scope else tuple(PKG + f for f in scope)
        self.preempts = sorted((int(s), int(k)) for s, k in preempts)
        self.pi = 0
        self.steps = 0
        self.threads = []
        self._h = hashlib.sha256()
        self.switches = 0
        self.overrun = False
        self.main = None
        self._armed, self._watched = {}, []

    def spawn(self, fn):
        t = _T()
        t.tid, t.fn, t.sem, t.done, t.exc = len(self.threads), fn, _REAL_LOCK(), False, None
        t.sem.acquire()
        t.lstep, t.blocked, t.fired, t.fault, t.cfault, t.thread, t.where = 0, None, [], None, None, None, None
        t.pre, t.calls = [], 0
        self.threads.append(t)
        return t

    # -- called from a managed thread --------------------------------------
    def current(self):
        i = _thread.get_ident()
        for t in self.threads:
            if t.thread is not None and t.thread.ident == i:
                return t
        return None

    def op_begin(self, t, fault=None, pre=()):
        t.lstep = t.calls = 0
        t.pre = sorted(([int(a), int(b)] for a, b in pre), reverse=True)
        t.fault = t.cfault = None
        if fault and fault[1] == "alloc-call":
            t.cfault = int(fault[0])
        elif fault:
            t.fault = (int(fault[0]), str(fault[1]))
        self._armed[_thread.get_ident()] = t

    def op_end(self):
        self._armed.pop(_thread.get_ident(), None)

    def watch(self):
        """Install the step events on every code object in scope, once, before
        any managed thread runs.  (sys.settrace re-instruments shared code
        objects whenever a thread arms or disarms, which CPython 3.12 does not
        survive while other threads are parked inside them.)"""
        mon = sys.monitoring
        armed, ident, frame = self._armed, _thread.get_ident, sys._getframe

        def hit(code, where):
            t = armed.get(ident())
            if t is not None:
                self.step(t, frame(1))

        def call(code, where, fn, arg0):
            t = armed.get(ident())
            if t is not None and allocating(fn) and \
                    frame(1).f_lineno not in boundary_lines(code.co_filename):
                t.calls += 1
                if t.cfault is not None and t.calls >= t.cfault:
                    t.cfault = None
                    self._fire(t, frame(1), "alloc-call")
        mon.use_tool_id(TOOL, "vsim")
        ev = mon.events.INSTRUCTION if self.grain == "opcode" else mon.events.LINE
        mon.register_callback(TOOL, ev, hit)
        if self.callfaults:
            mon.register_callback(TOOL, mon.events.CALL, call)
            ev |= mon.events.CALL
        self._watched = package_codes(self.scope)
        for c in self._watched:
            mon.set_local_events(TOOL, c, ev)

    def unwatch(self):
        mon = sys.monitoring
        for c in self._watched:
            mon.set_local_events(TOOL, c, 0)
        mon.free_tool_id(TOOL)
        self._watched = []

    def step(self, t, frame):
        self.steps += 1
        t.lstep += 1
        if self.steps > self.max_steps:
            self.overrun = True
            raise Violation("no-progress", "more than %d steps without finishing" % self.max_steps)
        if t.fault is not None and t.lstep >= t.fault[0] and \
                frame.f_lineno not in boundary_lines(frame.f_code.co_filename):
            kind = t.fault[1]
            t.fault = None
            self._fire(t, frame, kind)
        while self.pi < len(self.preempts) and self.preempts[self.pi][0] <= self.steps:
            k = self.preempts[self.pi][1]
            self.pi += 1
            self._preempt(t, k, frame)
        while t.pre and t.pre[-1][0] <= t.lstep:
            self._preempt(t, t.pre.pop()[1], frame)

    def _preempt(self, t, k, frame):
        others = [o for o in self.threads if not o.done and o is not t and self._can_run(o)]
        if others:
            o = others[k % len(others)]
            self.ctx.fault("preempt")
            self._h.update(("%d@%s:%d>%d;" % (t.tid, frame.f_code.co_name,
                                             (frame.f_lineno or 0) - frame.f_code.co_firstlineno, o.tid)).encode())
            self._switch(t, o)

    def _fire(self, t, frame, kind):
        t.fired.append(kind)
        t.where = frame.f_code.co_filename[len(PKG):]
        self.ctx.fault(kind)
        self._h.update(("F%d:%d:%s" % (t.tid, t.lstep, kind)).encode())
        raise make_fault(kind)

    @staticmethod
    def _can_run(o):
        return o.blocked is None or o.blocked._owner is None

    def block(self, lock):
        t = self.current()
        if t is None:
            return False
        t.blocked = lock
        others = [o for o in self.threads if not o.done and o is not t and self._can_run(o)]
        if not others:
            return False
        self._switch(t, others[0])
        t.blocked = None
        return True

    def _switch(self, t, o):
        self.switches += 1
        o.sem.release()
        t.sem.acquire()

    # -- driver -------------------------------------------------------------
    def _body(self, t):
        t.sem.acquire()
        try:
            t.fn(t)
        except BaseException as e:
            t.exc = e
        finally:
            self.op_end()
            t.done = True
            rest = [o for o in self.threads if not o.done and self._can_run(o)]
            if rest:
                rest[0].sem.release()
            else:
                self.main.release()

    def run(self):
        global ACTIVE
        self.main = _REAL_LOCK()
        self.main.acquire()
        for t in self.threads:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        ACTIVE = self
        self.watch()
        try:
            if self.threads:
                self.threads[0].sem.release()
                self.main.acquire()
        finally:
            ACTIVE = None
            self.unwatch()
        for t in self.threads:
            if not t.done:
                raise Violation("deadlock", "thread %d never finishes" % t.tid)
            t.thread.join()
        self.ctx.sched_hash = self._h.hexdigest()[:16] if self.switches or any(t.fired for t in self.threads) else ""
        self.ctx.event("sched", self.steps, self.switches, self.ctx.sched_hash)
        for t in self.threads:
            if t.exc is not None:
                raise t.exc


_BOUND = {}


def boundary_lines(path):
    """Lines where an asynchronous exception can fall between taking a resource
    and the code that gives it back, in any correct program (`with` headers,
    the statement before a `try`, handlers and finally bodies): CPython itself
    offers no safe cancellation there, so no fault is injected."""
    if path not in _BOUND:
        out = set()
        try:
            with open(path) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])

        def span(n, end=None):
            out.update(range(n.lineno, (end or n.end_lineno) + 1))
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                span(n, n.body[0].lineno - 1 if n.body[0].lineno > n.lineno else n.lineno)
            elif isinstance(n, ast.Try):
                span(n, n.lineno)
                for x in n.finalbody + n.handlers:
                    span(x)
            for field in ("body", "orelse", "finalbody"):
                blk = getattr(n, field, None)
                for a, b in zip(blk, blk[1:]) if isinstance(blk, list) else ():
                    if isinstance(b, ast.Try):
                        span(a)
        _BOUND[path] = out
    return _BOUND[path]


STATEFUL = {"seterr", "seterrcall", "errstate", "seed", "set_state", "get_state", "setbufsize", "geterr",
            "set_printoptions", "get_printoptions", "__enter__", "__exit__"}


def allocating(fn):
    """Is this callee one that allocates arrays (numpy, scipy)?"""
    mod = getattr(fn, "__module__", None)
    if mod is None:
        slf = getattr(fn, "__self__", None)
        mod = type(slf).__module__ if slf is not None else type(fn).__module__
    return str(mod).split(".")[0] in ("numpy", "scipy") and \
        getattr(fn, "__name__", "") not in STATEFUL


def package_codes(scope=None):
    """All code objects of the package's loaded modules, in a fixed order."""
    todo, seen = [], {}

    def add(c):
        if c not in seen and c.co_filename.startswith(PKG) and (scope is None or c.co_filename in scope):
            seen[c] = (c.co_filename, c.co_firstlineno, c.co_qualname)
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    add(k)

    def walk(v, depth):
        if isinstance(v, (staticmethod, classmethod)) or hasattr(v, "__wrapped__"):
            walk(getattr(v, "__wrapped__", None), depth)
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                walk(f, depth)
        elif isinstance(v, types.FunctionType):
            add(v.__code__)
        elif isinstance(v, type) and depth < 4 and str(v.__module__).split(".")[0] == "allantools":
            for x in list(vars(v).values()):
                walk(x, depth + 1)
    for name, m in sorted(sys.modules.items()):
        f = getattr(m, "__file__", None)
        if f and f.startswith(PKG):
            for v in list(vars(m).values()):
                walk(v, 0)
    return sorted(seen, key=seen.get)


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


class InjectedOSError(OSError):
    pass


def make_fault(kind):
    if kind == "interrupt":
        return InjectedInterrupt("simulated Ctrl-C")
    if kind in ("alloc", "alloc-call"):
        return InjectedMemoryError("simulated allocation failure")
    if kind == "crash":
        return SimCrash("simulated process death")
    raise HarnessError("unknown fault kind " + kind)


INJECTED = (InjectedInterrupt, InjectedMemoryError, SimCrash)


class Stepper(object):
    """The same step counter and fault points for one un-threaded operation."""

    def __init__(self, ctx, fault=None, grain="line", max_steps=20000000, scope=None, callfaults=False):
        self.s = Sched(ctx, (), grain, max_steps, scope, callfaults)
        self.t = self.s.spawn(lambda t: None)
        self.t.thread = threading.current_thread()
        self._fault = fault

    def __enter__(self):
        self.s.watch()
        self.s.op_begin(self.t, self._fault)
        return self

    def __exit__(self, *a):
        self.s.op_end()
        self.s.unwatch()
        return False

    @property
    def fired(self):
        return self.t.fired

    @property
    def steps(self):
        return self.s.steps

    @property
    def calls(self):
        return self.t.calls
