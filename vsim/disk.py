"""Simulated disk.

Files directly inside the simulated mount (an empty scratch directory of the
real system) live in memory here.  The package reaches them through the
ordinary open(); the seam replaces builtins.open / io.open / os functions for
those paths only.  A fault plan decides, per opened file, how raw writes,
flushes and closes behave."""
import builtins
import errno
import io
import os

from .core import SimCrash


REAL_CLOSE, REAL_FSTAT = os.close, os.fstat


class DiskError(OSError):
    pass


def oserr(code, path=""):
    e = DiskError(code, os.strerror(code) + " (simulated)", path)
    e.simulated = True
    return e


class Disk(object):
    """plan = {"open": errno|0, "enospc": bytes|-1, "eio": nth raw write|-1,
    "short": k (accept at most k bytes per raw write)|0, "close": errno|0,
    "crash": bytes|-1, "eintr": n}"""

    def __init__(self, ctx, mount):
        self.files = {}
        self.mount = mount.rstrip("/") + "/"
        self.ctx = ctx
        self.plan = None
        self.open_handles = 0
        self.opens = []
        self.fired = []
        self.dead = False
        self.fds = {}           # real placeholder descriptor -> _Raw
        self.bypassed = False

    def set_plan(self, plan):
        self.plan = dict(plan) if plan else None
        self.fired, self.opens, self.bypassed = [], [], False

    def fire(self, kind):
        self.fired.append(kind)
        self.ctx.fault(kind)

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        p = self.plan or {}
        self.opens.append((path, mode))
        writing = any(c in mode for c in "wax+")
        if "x" in mode and path in self.files:
            raise oserr(errno.EEXIST, path)
        if p.get("open"):
            self.fire("open-" + errno.errorcode[p["open"]])
            raise oserr(p["open"], path)
        if not writing and path not in self.files:
            raise oserr(errno.ENOENT, path)
        return self.wrap(_Raw(self, path, mode, p), mode, buffering, encoding, errors, newline)

    def wrap(self, raw, mode, buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        writing = any(c in mode for c in "wax+")
        if "b" in mode and buffering == 0:
            return raw
        size = raw.plan.get("bufsize") or io.DEFAULT_BUFFER_SIZE
        if buffering > 1:
            size = buffering
        if writing and ("r" in mode or "+" in mode):
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=(buffering == 1))

    def os_open(self, path, flags):
        """os.open(): a simulated file behind a real (placeholder) descriptor."""
        p = self.plan or {}
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        self.opens.append((path, flags))
        if flags & os.O_CREAT and flags & os.O_EXCL and path in self.files:
            raise oserr(errno.EEXIST, path)
        if p.get("open"):
            self.fire("open-" + errno.errorcode[p["open"]])
            raise oserr(p["open"], path)
        if not flags & os.O_CREAT and path not in self.files:
            raise oserr(errno.ENOENT, path)
        mode = "rb" if acc == os.O_RDONLY else "ab" if flags & os.O_APPEND else "r+b"
        if flags & os.O_TRUNC and acc != os.O_RDONLY:
            self.files[path] = bytearray()
        raw = _Raw(self, path, mode, p)
        return raw.descriptor()

    def stat(self, path):
        if path in self.files:
            return len(self.files[path])
        raise oserr(errno.ENOENT, path)

    def used(self):
        return sum(len(b) for b in self.files.values())


class _Raw(io.RawIOBase):
    def __init__(self, disk, path, mode, plan):
        self.disk, self.path, self.plan = disk, path, plan
        self.name, self.mode_ = path, mode
        self.w = any(c in mode for c in "wax+")
        self.r = "r" in mode or "+" in mode
        self.nw = 0
        self.written = 0
        if "w" in mode or "x" in mode:
            disk.files[path] = bytearray()
        data = disk.files.setdefault(path, bytearray())
        self.pos = len(data) if "a" in mode else 0
        disk.open_handles += 1
        self._open, self.fd = True, None

    def readable(self):
        return self.r

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def descriptor(self):
        """A real descriptor standing for this file (memory backed, so that
        flock and the like work on it)."""
        if self.fd is None:
            self.fd = os.memfd_create("vsim")
            self.disk.fds[self.fd] = self
        return self.fd

    def fileno(self):
        if not self.w:
            raise io.UnsupportedOperation("simulated file has no descriptor")
        return self.descriptor()

    def sync(self):
        if self.plan.get("fsync"):
            self.disk.fire("fsync-" + errno.errorcode[self.plan["fsync"]])
            raise oserr(self.plan["fsync"], self.path)

    def isatty(self):
        return False

    def readinto(self, b):
        data = self.disk.files[self.path][self.pos:self.pos + len(b)]
        b[:len(data)] = data
        self.pos += len(data)
        return len(data)

    def seek(self, off, whence=0):
        n = len(self.disk.files[self.path])
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else n + off
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        data = self.disk.files[self.path]
        if size < len(data):
            del data[size:]
        else:
            data.extend(b"\0" * (size - len(data)))
        return size

    def write(self, b):
        b = bytes(b)
        p, d = self.plan, self.disk
        if d.dead:
            raise SimCrash("machine is down")
        self.nw += 1
        n = len(b)
        if p.get("eio", -1) == self.nw - 1:
            d.fire("write-EIO")
            raise oserr(errno.EIO, self.path)
        if p.get("short"):
            if n > p["short"]:
                d.fire("short-write")
            n = min(n, p["short"])
        if p.get("crash", -1) >= 0 and self.written + n > p["crash"]:
            n = max(0, p["crash"] - self.written)
            self._put(b[:n])
            d.fire("crash")
            d.dead = True
            raise SimCrash("power lost during write")
        if p.get("enospc", -1) >= 0 and self.written + n > p["enospc"]:
            n = p["enospc"] - self.written
            if n <= 0:
                d.fire("write-ENOSPC")
                raise oserr(errno.ENOSPC, self.path)
            d.fire("torn-write")
        self._put(b[:n])
        return n

    def _put(self, b):
        data = self.disk.files[self.path]
        if self.pos > len(data):
            data.extend(b"\0" * (self.pos - len(data)))
        data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        self.written += len(b)

    def close(self):
        if self.closed:
            return
        if self._open:
            self._open = False
            self.disk.open_handles -= 1
        super(_Raw, self).close()
        if self.fd is not None:
            self.disk.fds.pop(self.fd, None)
            try:
                n = REAL_FSTAT(self.fd).st_size
                if n:           # written past the seam
                    self.disk.files[self.path] = bytearray(os.pread(self.fd, n, 0))
                    self.disk.bypassed = True
            finally:
                REAL_CLOSE(self.fd)
                self.fd = None
        if self.w and self.plan.get("close"):
            self.disk.fire("close-" + errno.errorcode[self.plan["close"]])
            raise oserr(self.plan["close"], self.path)


class Mounted(object):
    """Context manager installing the seam over a (real, empty) scratch
    directory.  Anything that reaches the real directory behind the seam's
    back is folded into the simulated disk, so bypassing code is judged on
    its result instead of breaking the harness."""

    NAMES = ["replace", "rename", "remove", "unlink", "stat", "lstat", "truncate", "access", "listdir", "open", "write",
             "close", "read", "fsync", "fdatasync", "fstat", "ftruncate", "lseek"]

    def __init__(self, disk):
        self.disk = disk

    def path(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        return p if isinstance(p, str) and p.startswith(self.disk.mount) else None

    def fold(self):
        d = self.disk
        for root, _, names in os.walk(d.mount):
            for n in names:
                self.fold_path(os.path.join(root, n))

    def fold_path(self, p):
        try:
            with self.old_open(p, "rb") as f:
                self.disk.files[p] = bytearray(f.read())
        except OSError:
            return
        self.saved["remove"](p)
        self.disk.bypassed = True
        self.disk.ctx.probe("disk-seam-bypassed")

    def __enter__(self):
        d, me = self.disk, self
        self.old_open, self.old_io = builtins.open, io.open
        real = builtins.open
        self.saved = {n: getattr(os, n) for n in self.NAMES}
        saved = self.saved

        def sim_open(path, mode="r", *a, **k):
            opener = k.get("opener")
            if opener is not None:      # tempfile
                fd = opener(path, os.O_RDWR | os.O_CREAT)
                if fd in d.fds:
                    return sim_open(fd, mode, *a, **dict(k, opener=None))
                return real(path, mode, *a, **dict(k, opener=lambda *_: fd))
            if isinstance(path, int):
                raw = d.fds.get(path)
                if raw is not None and k.get("closefd", True):
                    return d.wrap(raw, mode, *a, **k)
                return real(path, mode, *a, **k)
            p = me.path(path)
            if p is not None and os.path.dirname(p) == d.mount.rstrip("/"):
                return d.open(p, mode, *a, **k)
            return real(path, mode, *a, **k)

        def fd_call(name, sim):
            def f(fd, *a, **k):
                raw = d.fds.get(fd) if isinstance(fd, int) else None
                return saved[name](fd, *a, **k) if raw is None else sim(raw, *a, **k)
            return f

        def os_open(path, flags, mode=0o777, **k):
            p = me.path(path)
            if p is not None and os.path.dirname(p) == d.mount.rstrip("/"):
                return d.os_open(p, flags)
            return saved["open"](path, flags, mode, **k)

        def sim_fstat(raw):
            import stat
            return os.stat_result((stat.S_IFREG | 0o644, 0, 0, 1, 0, 0, len(d.files[raw.path]), 0, 0, 0))

        def sim_read(raw, n):
            b = bytearray(n)
            return bytes(b[:raw.readinto(b)])

        def sim_trunc(raw, n):
            raw.truncate(n)

        def held(path):
            p = me.path(path)
            return p if p is not None and p in d.files else None

        def two(name):
            def f(src, dst, *a, **k):
                s_, t_ = held(src), me.path(dst)
                if t_ is not None:
                    p = d.plan or {}
                    if p.get("rename"):
                        d.fire("rename-" + errno.errorcode[p["rename"]])
                        raise oserr(p["rename"], t_)
                if s_ is not None and t_ is not None:
                    d.files[t_] = d.files.pop(s_)
                    return None
                out = saved[name](src, dst, *a, **k)
                if t_ is not None:
                    d.files.pop(t_, None)
                return out
            return f

        def rm(name):
            def f(path, *a, **k):
                p = held(path)
                if p is not None:
                    del d.files[p]
                    return None
                return saved[name](path, *a, **k)
            return f

        def st(name):
            def f(path, *a, **k):
                p = held(path) if not isinstance(path, int) else None
                if p is not None:
                    import stat
                    return os.stat_result((stat.S_IFREG | 0o644, 0, 0, 1, 0, 0, d.stat(p), 0, 0, 0))
                return saved[name](path, *a, **k)
            return f

        def truncate(path, length):
            p = held(path) if not isinstance(path, int) else None
            if p is not None:
                del d.files[p][length:]
                return None
            return saved["truncate"](path, length)

        def listdir(path="."):
            out = saved["listdir"](path)
            if not isinstance(path, int) and os.fspath(path).rstrip("/") == d.mount.rstrip("/"):
                out = out + [os.path.basename(p) for p in d.files]
            return out

        def access(path, *a, **k):
            return True if held(path) is not None else saved["access"](path, *a, **k)

        builtins.open = io.open = sim_open
        os.open = os_open
        os.write = fd_call("write", lambda raw, b: raw.write(b))
        os.read = fd_call("read", sim_read)
        os.close = fd_call("close", lambda raw: raw.close())
        os.fsync = fd_call("fsync", lambda raw: raw.sync())
        os.fdatasync = fd_call("fdatasync", lambda raw: raw.sync())
        os.ftruncate = fd_call("ftruncate", sim_trunc)
        os.lseek = fd_call("lseek", lambda raw, o, w: raw.seek(o, w))
        os.fstat = fd_call("fstat", sim_fstat)
        os.replace, os.rename = two("replace"), two("rename")
        os.remove, os.unlink = rm("remove"), rm("unlink")
        os.stat, os.lstat = st("stat"), st("lstat")
        os.truncate, os.listdir, os.access = truncate, listdir, access
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.old_open, self.old_io
        for n, f in self.saved.items():
            setattr(os, n, f)
        self.fold()
        return False
