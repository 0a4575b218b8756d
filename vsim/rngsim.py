"""Seam for numpy's process-wide random stream.

While installed, every standard normal number drawn through numpy.random by
anyone is taken from a planned vector, so that a noise source becomes a
deterministic function of that vector."""
import sys

import numpy as np

from .core import PKG, Violation

NORMALS = ("randn", "standard_normal", "normal")
OTHERS = ("rand", "random", "random_sample", "ranf", "sample", "uniform", "randint", "choice", "permutation", "shuffle",
          "bytes", "poisson", "exponential", "standard_cauchy", "standard_t", "laplace", "default_rng", "RandomState")


class Stream(object):
    """z[k] is the k-th standard normal number drawn; beyond the plan: 0."""

    def __init__(self, z=None, hot=None):
        self.z, self.hot, self.k, self.undo, self.by = z, hot, 0, [], []

    def draw(self, size):
        n = int(np.prod(size)) if size is not None else 1
        out = np.zeros(n)
        if self.hot is not None:
            if self.k <= self.hot < self.k + n:
                out[self.hot - self.k] = 1.0
        elif self.z is not None:
            part = self.z[self.k:self.k + n]
            out[:len(part)] = part
        self.k += n
        return float(out[0]) if size is None else out.reshape(size)

    def __enter__(self):
        def randn(*shape):
            return self.draw(shape if shape else None)

        def standard_normal(size=None):
            return self.draw(size)

        def normal(loc=0.0, scale=1.0, size=None):
            if size is None and (np.ndim(loc) or np.ndim(scale)):
                size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
            return np.asarray(loc) + np.asarray(scale) * self.draw(size) if size is not None else \
                float(loc) + float(scale) * self.draw(None)
        fakes = {"randn": randn, "standard_normal": standard_normal, "normal": normal}
        for name in OTHERS:
            real = getattr(np.random, name, None)
            if real is None:
                continue

            def other(*a, _name=name, _real=real, **k):
                if sys._getframe(1).f_code.co_filename.startswith(PKG):
                    raise Violation("not-normal", "a noise source draws numpy.random.%s instead of standard normal "
                                    "numbers of the global stream" % _name)
                return _real(*a, **k)
            if name != "RandomState":
                fakes[name] = other
        mods = [np.random] + [m for k, m in sorted(sys.modules.items())
                              if getattr(m, "__file__", None) and m.__file__.startswith(PKG)]
        for name, fake in fakes.items():
            real = getattr(np.random, name)
            for m in mods:
                for key, val in list(vars(m).items()):
                    # bound methods compare equal, not identical
                    if val is real or (type(val) is type(real) and val == real):
                        self.undo.append((m, key, val))
                        setattr(m, key, fake)
        return self

    def __exit__(self, *a):
        for m, k, v in reversed(self.undo):
            setattr(m, k, v)
        self.undo = []


def lean(op, kw, **defaults):
    """The call's arguments, without those that equal the documented default
    if the scenario says so."""
    if not op.get("lean"):
        return kw
    return {k: v for k, v in kw.items() if not (k in defaults and v == defaults[k])}


def source(op, n):
    """Samples of one plain source."""
    from allantools import noise
    k = op["src"] if "src" in op else op["op"]
    if k == "white":
        return noise.white(**lean(op, {"num_points": n, "b0": op["level"], "fs": op["fs"]}, num_points=1024, b0=1, fs=1))
    if k == "brown":
        return noise.brown(**lean(op, {"num_points": n, "b_minus2": op["level"], "fs": op["fs"]},
                                  num_points=1024, b_minus2=1, fs=1))
    if k == "violet":
        return noise.violet(**lean(op, {"num_points": n, "b2": op["level"], "fs": op["fs"]}, num_points=1024, b2=1, fs=1))
    if k == "pink":
        return noise.pink(**lean(op, {"num_points": n, "depth": op["depth"]}, num_points=1024, depth=80))
    raise ValueError(k)


def kasdin(op, n, o=None):
    import allantools
    kw = lean(op, {"nr": n, "qd": op["level"], "b": op["b"]}, qd=1, b=0)
    if o is None:
        return allantools.Noise(**kw)
    o.set_input(**kw)
    return o
