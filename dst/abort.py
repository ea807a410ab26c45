"""Abort injection: a call into the code under test is broken off at a chosen statement or kernel call."""
import os
import sys

from .core import REPO

ROOT = os.path.realpath(os.path.join(REPO, "parallel_control")) + os.sep


class Abort(BaseException):
    """Stands for an asynchronous interrupt (like KeyboardInterrupt); not an Exception."""


class LineRunner:
    """Counts the statements the code under test executes; raises at one of them when `at` is given."""

    def __init__(self, at=None, exc=None, opcodes=False):
        self.at, self.exc, self.opcodes = at, exc, opcodes
        self.count = 0
        self.where = None
        self.cache = {}

    def _mine(self, code):
        r = self.cache.get(code)
        if r is None:
            f = code.co_filename
            r = self.cache[code] = f.startswith(ROOT) or os.path.realpath(f).startswith(ROOT)
        return r

    def _call(self, frame, event, arg):
        if not self._mine(frame.f_code):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._line

    def _line(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.count += 1
            if self.at is not None and self.count == self.at:
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                self.at = None
                raise self.exc
        return self._line

    def run(self, fn, *a, **kw):
        """Returns ("ok", value) or ("exc", exception)."""
        old = sys.gettrace()
        sys.settrace(self._call)
        try:
            try:
                v = fn(*a, **kw)
            finally:
                sys.settrace(old)
            return "ok", v
        except BaseException as e:
            return "exc", e


class KernelFault:
    """Makes the n-th call of the numerical kernels used by the NumPy code fail."""

    NAMES = [("scipy.linalg", "cho_factor"), ("scipy.linalg", "cho_solve"), ("scipy.linalg", "solve"),
             ("scipy.linalg", "lu_factor"), ("scipy.linalg", "lu_solve"), ("scipy.linalg", "cholesky"),
             ("scipy.linalg", "inv"), ("scipy.linalg", "expm"), ("scipy.linalg", "qr"), ("scipy.linalg", "svd"),
             ("numpy.linalg", "solve"), ("numpy.linalg", "inv"), ("numpy.linalg", "cholesky"),
             ("numpy", "zeros"), ("numpy", "zeros_like"), ("numpy", "eye"), ("numpy", "block"),
             ("numpy", "concatenate"), ("numpy", "array"), ("numpy", "full"), ("numpy", "copy"),
             ("numpy.linalg", "pinv"), ("numpy.linalg", "lstsq"), ("scipy.linalg", "block_diag"), ("scipy.linalg", "lstsq"),
             ("numpy", "vstack"), ("numpy", "hstack"), ("numpy", "stack"), ("numpy", "tile"), ("numpy", "diag"),
             ("numpy", "ones"), ("numpy", "empty"), ("numpy", "argmin"), ("numpy", "take_along_axis"),
             ("numpy", "full_like"), ("numpy", "asarray"), ("numpy", "linspace")]

    def __init__(self, at=None, exc=None):
        self.at, self.exc = at, exc
        self.count = 0
        self.where = None
        self.undo = []

    def __enter__(self):
        for mod, name in self.NAMES:
            m = sys.modules.get(mod)
            f = getattr(m, name, None)
            if f is None:
                continue
            self.undo.append((m, name, f))
            setattr(m, name, self._wrap(f, mod + "." + name))
        return self

    def _wrap(self, f, label):
        def kernel(*a, **kw):
            fr = sys._getframe(1)
            if fr.f_code.co_filename.startswith(ROOT):
                self.count += 1
                if self.at is not None and self.count == self.at:
                    self.where = label
                    self.at = None
                    raise self.exc
            return f(*a, **kw)
        return kernel

    def __exit__(self, *a):
        for m, name, f in reversed(self.undo):
            setattr(m, name, f)
        return False
