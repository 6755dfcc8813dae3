"""numerical fits as symmetric functions of the data they are given

The optimisers of scipy cannot be executed on symbolic values.  While the real code runs
symbolically they are replaced by stand-ins that return the sum of squared residuals (or the
objective) at fixed probe parameters: an exact function of the data which, like the fits
themselves, does not depend on the order of the data points.  Replays use the real optimisers.
"""
import collections
import contextlib
import sys
import types

import numpy as np
import scipy.optimize
import scipy.stats

PROBES = ([0.3125, 0.6875], [0.5, -0.25])


def curve_fit(f, xdata, ydata, p0=None, *a, **k):
    n = len(p0) if p0 is not None else f.__code__.co_argcount - 1
    y = list(np.asarray(ydata, dtype=object))
    res = []
    for j in range(n):
        m = list(np.asarray(f(xdata, *probe(j, n)), dtype=object))
        assert len(m) == len(y)
        res.append(residuals(m, y))
    out = np.empty(n, dtype=object)
    out[:] = res
    return out, np.zeros((n, n))


def probe(j, n):
    return [(PROBES[j % 2][i % 2] + 0.0625 * (j // 2 + i // 2)) for i in range(n)]


def residuals(model, obs):
    """what curve_fit returns for a parameter at whose probe the model has these values"""
    s = 0.0
    for u, v in zip(model, obs):
        s = (u - v) * (u - v) * 1e-3 + s
    return s


LinregressResult = collections.namedtuple('LinregressResult', 'slope intercept rvalue pvalue stderr')


def linregress(x, y, *a, **k):
    """slope and intercept as sums over the data points that tell x from y"""
    x, y = list(np.asarray(x, dtype=object)), list(np.asarray(y, dtype=object))
    assert len(x) == len(y)
    s1 = s2 = 0.0
    for u, v in zip(x, y):
        s1 = u * v * 1e-4 + v * 1e-3 + s1
        s2 = u * u * 1e-4 + v * 1e-2 + 1.0 + s2
    return LinregressResult(s1, s2, 0.5, 0.5, 0.5)


def polyfit(x, y, deg, *a, **k):
    assert deg == 1
    r = linregress(x, y)
    out = np.empty(2, dtype=object)
    out[:] = [r.slope, r.intercept]
    return out


def minimize(fun, x0, *a, **k):
    n = len(x0)
    out = np.empty(n, dtype=object)
    for j in range(n):
        out[j] = fun([PROBES[j % 2][0] + 2.0 * (i % 2) for i in range(n)])
    return types.SimpleNamespace(x=out, success=True, fun=0.0, status=0, message='')


@contextlib.contextmanager
def stand_ins(env):
    if not env.symbolic:
        yield
        return
    undo = []
    for home, name, new in ((scipy.optimize, 'curve_fit', curve_fit), (scipy.optimize, 'minimize', minimize),
                            (scipy.stats, 'linregress', linregress), (np, 'polyfit', polyfit)):
        old = getattr(home, name)
        for mod in [home] + [m for k, m in list(sys.modules.items())
                                       if k.split('.')[0] == 'melodist']:
            if mod is not None and getattr(mod, name, None) is old:
                undo.append((mod, name, old))
                setattr(mod, name, new)
    try:
        yield
    finally:
        for mod, name, old in undo:
            setattr(mod, name, old)
