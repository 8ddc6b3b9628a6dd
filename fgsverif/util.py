import numpy as np

from .runner import Violation


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def finite(x, what):
    if not np.all(np.isfinite(np.asarray(x, dtype=float))):
        raise Violation("{} is not finite: {}".format(what, x))


def close(got, want, what, rtol=1e-9, atol=0.0):
    """All of got within atol + rtol*|want| (elementwise), and of the same shape"""
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation("{}: shape {} instead of {}".format(what, g.shape, w.shape))
    if not np.all(np.isfinite(g)):
        raise Violation("{}: not finite: {}".format(what, _brief(g)))
    err = np.abs(g - w)
    tol = np.asarray(atol) + rtol * np.abs(w)
    if np.any(err > tol):
        i = int(np.argmax(err - tol))
        raise Violation(
            "{}: got {!r} want {!r} (difference {:.3g}, allowed {:.3g})".format(
                what, float(g.flat[i]), float(w.flat[i]), float(err.flat[i]),
                float(np.broadcast_to(tol, err.shape).flat[i]),
            )
        )


def _brief(a):
    return np.array2string(np.asarray(a), threshold=8)
