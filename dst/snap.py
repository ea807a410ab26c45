"""Deep snapshots of problem data, to see whether a call modified anything it was handed."""
import types

import numpy as np

_ATOM = (int, float, complex, str, bytes, bool, type(None))


def snap(x, path=()):
    if isinstance(x, _ATOM):
        return ("atom", repr(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("seq", "objarray", tuple(snap(y, path) for y in x.ravel()))
        return ("array", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, np.generic):
        return ("atom", repr(x))
    if isinstance(x, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, type)):
        return ("fn", id(x))
    if type(x).__module__.partition(".")[0] in ("jax", "jaxlib", "tensorflow") and hasattr(x, "__array__"):
        return ("array", type(x).__name__) + snap(np.asarray(x))[1:]
    if id(x) in path:
        return ("ref", len(path) - path.index(id(x)))
    path = path + (id(x),)
    if isinstance(x, (list, tuple)):
        return ("seq", type(x).__name__, tuple(snap(y, path) for y in x))
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), snap(v, path)) for k, v in sorted(x.items(), key=lambda kv: repr(kv[0]))))
    if hasattr(x, "__dict__") and len(path) < 12:
        return ("obj", type(x).__name__, snap(vars(x), path))
    return ("other", type(x).__name__)


def diff(a, b, path="arg", additions=True):
    """Path of the first difference between two snapshots, or None; additions=False ignores added attributes."""
    if a == b:
        return None
    if a[0] == b[0]:
        if a[0] == "seq" and a[1] == b[1]:
            if len(a[2]) != len(b[2]):
                return "%s: length %d became %d" % (path, len(a[2]), len(b[2]))
            for i, (u, v) in enumerate(zip(a[2], b[2])):
                d = diff(u, v, "%s[%d]" % (path, i), additions)
                if d:
                    return d
            return None
        if a[0] == "dict":
            da, db = dict(a[1]), dict(b[1])
            for k in da:
                if k not in db:
                    return "%s: %s removed" % (path, k)
                d = diff(da[k], db[k], "%s.%s" % (path, k.strip("'")), additions)
                if d:
                    return d
            for k in db:
                if k not in da and additions:
                    return "%s: %s added" % (path, k)
            return None
        if a[0] == "obj" and a[1] == b[1]:
            return diff(a[2], b[2], path, additions)
        if a[0] == "array":
            if a[1:-1] != b[1:-1]:
                return "%s: array type or shape changed" % path
            return "%s: array contents changed" % path
    return "%s: value changed" % path


def same(a, b, tol=0.0):
    """Structural equality of two results; floats within tol (relative), everything else exactly."""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) \
            and all(same(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    if callable(a) or callable(b):
        return callable(a) and callable(b)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return True
    if a.size == 0:
        return True
    if tol == 0.0 or a.dtype.kind in "iubUS":
        return bool(np.array_equal(a, b, equal_nan=True) if a.dtype.kind == "f" and b.dtype.kind == "f" else np.array_equal(a, b))
    fin = np.isfinite(a) & np.isfinite(b)
    if not np.array_equal(a[~fin], b[~fin], equal_nan=True):
        return False
    if not fin.any():
        return True
    return float(np.max(np.abs(a[fin] - b[fin]))) <= tol * (1.0 + float(np.max(np.abs(b[fin]))))
