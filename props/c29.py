"""C29: interpolating fixed-hour observations reproduces them and connects them"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import NAN, check_unchanged, days, expected_hours, snapshot


def interpolate(env, start, n, hours, missing=(), order=None):
    """hours: column -> hour; missing: (column, day) possibly missing"""
    idx = days(start, n)
    cols, nodes = {}, {}
    for c, h in hours.items():
        cols[c] = []
        for d in range(n):
            if (c, d) in missing and env.choice('missing_%s%d' % (c, d), [False, True]):
                cols[c].append(NAN)
            else:
                v = env.real('%s%d' % (c, d), 250.0, 310.0)
                cols[c].append(v)
                nodes[24 * d + h] = v
    st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=env.frame(cols, idx))
    snap = snapshot(st.data_daily)
    keys = list(hours)
    if order:
        keys = env.choice('order', [keys, keys[::-1]])
    out = env.call(st.interpolate, {c: hours[c] for c in keys})
    env.observe(out)
    check_unchanged(env, 'daily data left unchanged', st.data_daily, snap)
    env.check('all hours of the days', list(out.index) == expected_hours(idx))
    ov = list(out.array)
    if len(ov) != 24 * n:
        return
    known = sorted(nodes)
    for i, x in enumerate(ov):
        lo = max([k for k in known if k <= i], default=None)
        hi = min([k for k in known if k >= i], default=None)
        if isnan(x):
            env.check('value for every hour', False)
            continue
        if lo is None or hi is None:
            env.check_eq('nearest observation at the ends', x, nodes[hi if lo is None else lo])
        elif lo == hi:
            env.check_eq('observation at its hour', x, nodes[i])
        else:
            w = (i - lo) / float(hi - lo)
            env.check_eq('linear between observations', x, nodes[lo] + w * (nodes[hi] - nodes[lo]))


def obligations(tier, seed):
    obs = []
    H = {'T7': 7, 'T14': 14, 'T19': 19}
    b = '%d days, columns at %s h; values symbolic'
    obs.append(Ob('three', interpolate, dict(start='2016-02-28', n=3, hours=H, order=True),
                  bounds=b % (3, '7/14/19')))
    obs.append(Ob('missing', interpolate, dict(
        start='2015-12-31', n=2, hours=H, missing=[('T7', 0), ('T14', 0), ('T7', 1), ('T19', 1)]),
        bounds=b % (2, '7/14/19') + ', four of them possibly missing'))
    obs.append(Ob('single', interpolate, dict(start='2015-12-31', n=3, hours={'x': 12}),
                  bounds=b % (3, '12')))
    obs.append(Ob('ends', interpolate, dict(start='2016-02-28', n=2, hours={'a': 0, 'b': 23}),
                  bounds=b % (2, '0/23')))
    obs.append(Ob('swapped', interpolate, dict(start='2016-02-28', n=2, hours={'late': 21, 'early': 3,
                                                                             'mid': 11}, order=True),
                  bounds=b % (2, '21/3/11')))
    obs.append(Ob('hourly', interpolate, dict(start='2016-02-29', n=1, hours={'h%d' % h: h for h in range(24)}),
                  bounds=b % (1, '0..23')))
    obs.append(Ob('one-day', interpolate, dict(start='2016-02-29', n=1, hours=H, missing=[('T7', 0)]),
                  bounds=b % (1, '7/14/19')))
    return obs
