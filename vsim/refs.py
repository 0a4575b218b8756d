"""Small reference models, written from the published definitions and
evaluated in extended precision.  They share no code with the library."""
import numpy as np

LD = np.longdouble
EPS = float(np.finfo(float).eps)


class History(list):
    """Phase samples fed so far; `steps` counts those integrated from a
    frequency (each may round differently in another arrangement)."""
    steps = 0


def ref_stream(family, x, m, tau0):
    """(value, terms, absolute tolerance) of the streaming statistic at
    averaging factor m for phase samples x; terms == 0 -> value is 0."""
    v, k, tol = _ref_stream(family, x, m, tau0)
    steps = min(getattr(x, "steps", 0), 3 * m)
    if k and steps:
        tol += 8 * EPS * float(max(abs(max(x)), abs(min(x)))) * steps / (1.0 if family == "tdev" else m * float(tau0))
    return v, k, tol


def _ref_stream(family, x, m, tau0):
    n = len(x)
    a = np.asarray(x, dtype=LD)
    t0 = LD(tau0)
    big = float(np.max(np.abs(a))) if n else 0.0
    if family == "oadev":
        k = n - 2 * m
        if k < 1:
            return 0.0, 0, 0.0
        d = a[2 * m:] - 2 * a[m:-m] + a[:-2 * m]
        v = np.sqrt(np.sum(d * d) / (2 * LD(k))) / (m * t0)
        tol = 16 * EPS * big / (m * float(tau0)) + (64 + n) * EPS * float(v)
        return float(v), k, tol
    if family == "ohdev":
        k = n - 3 * m
        if k < 1:
            return 0.0, 0, 0.0
        d = a[3 * m:] - 3 * a[2 * m:n - m] + 3 * a[m:n - 2 * m] - a[:n - 3 * m]
        v = np.sqrt(np.sum(d * d) / (6 * LD(k))) / (m * t0)
        tol = 32 * EPS * big / (m * float(tau0)) + (64 + n) * EPS * float(v)
        return float(v), k, tol
    # tdev / mdev
    k = n - 3 * m + 1
    if k < 1:
        return 0.0, 0, 0.0
    d = a[2 * m:] - 2 * a[m:n - m] + a[:n - 2 * m]
    c = np.concatenate(([LD(0)], np.cumsum(d)))
    s = c[m:] - c[:-m]
    assert len(s) == k
    v = np.sqrt(np.sum(s * s) / (6 * LD(k))) / m
    # running sums may accumulate one rounding error per sample
    smax = float(np.max(np.abs(c)))
    tol = n * EPS * (16 * big + 4 * smax) / m + (64 + n) * EPS * float(v)
    return float(v), k, tol


_GRID = {}


def _full_grid(ppd, n):
    """Distinct rounded grid points up to (and beyond) n/2, ascending."""
    g, dec = _GRID.get(ppd, ([1], 0))
    while 2 * g[-1] + 1 <= n or dec == 0:
        base = np.logspace(0, 1, ppd + 1)[:-1]
        for k in range(ppd):
            v = int(np.round(pow(10.0, dec) * base[k]))
            if v > g[-1]:
                g.append(v)
        dec += 1
    _GRID[ppd] = (g, dec)
    return g


def log_grid(ppd, n):
    """Distinct rounded points of the logarithmic grid usable with n samples
    (1 is there from the start)."""
    return [1] + [v for v in _full_grid(ppd, n)[1:] if 2 * v + 1 <= n]
