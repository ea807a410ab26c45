"""Experiment scripts in a simulated world: their own entry point runs against a scratch disk whose operations can
fail, be torn or be the last thing the process ever does, with simulated benchmark durations."""
import builtins
import contextlib
import errno
import io
import os
import shutil
import sys
import tempfile

from .core import REPO

_OPEN = io.open
_CODE = {}


class Crash(BaseException):
    """The simulated process dies here; nothing after it reaches the disk."""


class Outside(BaseException):
    """The code under test tried to change something outside its directory."""


class Disk:
    """Scratch directory tree; writes go through raw files whose every operation is a fault point."""

    def __init__(self, ctx, est=40):
        self.ctx = ctx
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="verif-exp-", dir=base))
        self.cwd = os.path.join(self.root, "exp")
        os.makedirs(os.path.join(self.cwd, "res"))
        os.makedirs(os.path.join(self.root, "notebooks"))
        self.dead = False
        self.ops = 0
        self.crash_at = None
        self.fail_at = None
        self.fail_errno = errno.EIO
        self.full = False
        self.sticky = False
        self.bufsize = 8192
        self.short = False
        self.undo = []
        self.raws = []

    # -- fault points ----------------------------------------------------------------------------------------------
    def point(self, kind):
        """One operation of the simulated process. Returns an errno to fail with, or 0."""
        if self.dead:
            raise Crash()
        self.ops += 1
        if self.crash_at is not None and self.ops >= self.crash_at:
            self.die(kind)
        if self.full and kind in ("open", "write", "close"):
            return errno.ENOSPC
        if self.fail_at is not None and self.ops >= self.fail_at and kind in ("open", "write", "close"):
            self.fail_at = None
            e = self.fail_errno
            self.ctx.fault("disk_%s_%s" % (kind, errno.errorcode[e]))
            self.ctx.step("fail", kind, errno.errorcode[e])
            if e == errno.ENOSPC and self.sticky:
                self.full = True
            return e
        return 0

    def die(self, where):
        self.dead = True
        self.ctx.fault("crash_" + where)
        self.ctx.step("crash", where)
        raise Crash()

    # -- patched operations -----------------------------------------------------------------------------------------
    def inside(self, path):
        try:
            p = os.path.realpath(os.path.join(os.getcwd(), os.fspath(path)))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.root + os.sep)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or not any(c in mode for c in "wax+"):
            return _OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not self.inside(file):
            if os.fspath(file) == os.devnull:
                return _OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            raise Outside("open(%r, %r)" % (file, mode))
        e = self.point("open")
        if e:
            raise OSError(e, os.strerror(e), file)
        self.ctx.step("open", os.path.basename(file), mode)
        raw = Raw(self, file, mode.replace("b", "").replace("t", ""))
        self.raws.append(raw)
        binary = "b" in mode
        if binary and buffering == 0:
            return raw
        buf = (io.BufferedRandom if "+" in mode else io.BufferedWriter)(raw, self.bufsize)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
        if self.bufsize <= 64:
            t._CHUNK_SIZE = self.bufsize
        return t

    def _change(self, name, nargs):
        f = getattr(os, name)

        def op(*a, **kw):
            for p in a[:nargs]:
                if not isinstance(p, int) and not self.inside(p):
                    raise Outside("os.%s%r" % (name, a))
            e = self.point("open")
            if e:
                raise OSError(e, os.strerror(e), a[0])
            self.ctx.step("os", name)
            return f(*a, **kw)
        return op

    def __enter__(self):
        def put(obj, name, v):
            self.undo.append((obj, name, getattr(obj, name)))
            setattr(obj, name, v)
        put(builtins, "open", self.open)
        put(io, "open", self.open)
        for name, n in (("remove", 1), ("unlink", 1), ("rename", 2), ("replace", 2), ("truncate", 1), ("rmdir", 1), ("mkdir", 1),
                        ("symlink", 2), ("link", 2)):
            put(os, name, self._change(name, n))
        self.old_cwd = os.getcwd()
        os.chdir(self.cwd)
        return self

    def __exit__(self, *a):
        for obj, name, v in reversed(self.undo):
            setattr(obj, name, v)
        self.undo = []
        os.chdir(self.old_cwd)
        return False

    def restart(self):
        """The next process on the same disk."""
        for r in self.raws:
            r.drop()
        self.raws = []
        self.dead = False
        self.ops = 0
        self.crash_at = self.fail_at = None
        self.full = False

    def destroy(self):
        for r in self.raws:
            r.drop()
        assert "verif-exp-" in self.root
        shutil.rmtree(self.root, ignore_errors=True)

    def files(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with _OPEN(p, "rb") as h:
                    out[os.path.relpath(p, self.cwd)] = h.read()
        return out


class Raw(io.RawIOBase):
    def __init__(self, disk, path, mode):
        self.disk, self.fd = disk, -1
        flags = {"w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL, "r+": os.O_RDWR, "w+": os.O_RDWR | os.O_CREAT | os.O_TRUNC,
                 "a+": os.O_RDWR | os.O_CREAT | os.O_APPEND, "x+": os.O_RDWR | os.O_CREAT | os.O_EXCL}[mode]
        self.rw = "+" in mode
        self.fd = os.open(path, flags, 0o644)

    def readable(self):
        return self.rw

    def writable(self):
        return True

    def seekable(self):
        return self.fd >= 0

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def readinto(self, b):
        d = os.read(self.fd, len(b))
        b[:len(d)] = d
        return len(d)

    def truncate(self, size=None):
        if not self.disk.dead:
            os.ftruncate(self.fd, os.lseek(self.fd, 0, 1) if size is None else size)
        return size

    def write(self, b):
        n = len(b)
        if self.disk.dead or self.fd < 0:
            return n
        d = self.disk
        torn = d.ctx.ch.int(n + 1) if (d.full or d.crash_at == d.ops + 1 or (d.fail_at is not None and d.fail_at <= d.ops + 1)) else None
        if torn is not None:
            os.write(self.fd, bytes(b[:torn]))
        e = d.point("write")
        if torn is not None and not e:
            if torn < n:
                os.write(self.fd, bytes(b[torn:]))
            return n
        if e:
            raise OSError(e, os.strerror(e))
        if d.short and n > 1:
            n = 1 + d.ctx.ch.int(n)
            d.ctx.fault("short_write")
        os.write(self.fd, bytes(b[:n]))
        return n

    def close(self):
        if self.closed:
            return
        if not self.disk.dead and self.fd >= 0:
            e = 0
            try:
                super().close()
                e = self.disk.point("close")
            finally:
                self.drop()
            if e:
                raise OSError(e, os.strerror(e))
            return
        self.drop()
        super().close()

    def drop(self):
        if self.fd >= 0:
            fd, self.fd = self.fd, -1
            os.close(fd)

    def fileno(self):
        return self.fd


class Lines:
    """Dies at the n-th statement of the script itself."""

    def __init__(self, path, disk, at):
        self.path, self.disk, self.at, self.count = path, disk, at, 0

    def __call__(self, frame, event, arg):
        if frame.f_code.co_filename != self.path:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count == self.at and not self.disk.dead:
                self.disk.die("statement")
        return self.line


def run_script(rel, argv, disk, at_line=None):
    """Runs a script from its entry point. Returns (status, exception): status ok, exit, crash or error."""
    path = os.path.join(REPO, rel)
    if path not in _CODE:
        with _OPEN(path, encoding="utf-8") as f:
            _CODE[path] = compile(f.read(), path, "exec")
    import tensorflow as tf
    th = tf.config.threading
    old = (sys.argv, th.set_intra_op_parallelism_threads, th.set_inter_op_parallelism_threads, os.environ.get("TF_CPP_MIN_LOG_LEVEL"))
    sys.argv = [os.path.basename(rel)] + list(argv)
    th.set_intra_op_parallelism_threads = th.set_inter_op_parallelism_threads = lambda n: None
    env = {"__name__": "__main__", "__file__": path, "__builtins__": builtins}
    tracer = sys.gettrace()
    mods, folder = set(sys.modules), os.path.dirname(path)
    sys.path.insert(0, folder)
    try:
        with disk, contextlib.redirect_stdout(io.StringIO()):
            if at_line is not None:
                sys.settrace(Lines(path, disk, at_line))
            try:
                exec(_CODE[path], env)
                return "ok", None
            except Crash as e:
                return "crash", e
            except SystemExit as e:
                return "exit", e
            except Exception as e:
                return "error", e
            except KeyboardInterrupt as e:
                return "error", e
            finally:
                sys.settrace(tracer)
    finally:
        sys.path.remove(folder)
        for m in set(sys.modules) - mods:
            if (getattr(sys.modules[m], "__file__", None) or "").startswith(folder + os.sep):
                del sys.modules[m]
        sys.argv = old[0]
        th.set_intra_op_parallelism_threads, th.set_inter_op_parallelism_threads = old[1], old[2]
        if old[3] is not None:
            os.environ["TF_CPP_MIN_LOG_LEVEL"] = old[3]
