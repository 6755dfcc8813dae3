"""shared input builders for the obligations"""
import numpy as np
import pandas as pd

import melodist

NAN = float('nan')


# days with equal days of the month or of the year in different months and years
SAME_DAY = ('2015-03-31', '2015-05-31', '2016-03-30', '2016-03-31')


def days(start, n):
    """n consecutive days from start, or the days listed in start"""
    if isinstance(start, (list, tuple)):
        return pd.DatetimeIndex(start[:n])
    return pd.date_range(start, periods=n, freq='D')


def hours_of(index, day):
    return index.normalize() == pd.Timestamp(day).normalize()


def sample_stats(nlev=5):
    cs = melodist.cascade.CascadeStatistics()
    cs.fill_with_sample_data()
    if nlev != 5:
        cs.threshold = np.array([1.2 * 1.45 ** i for i in range(nlev)])
    return cs


def total(vals):
    t = 0.0
    for v in vals:
        t = v + t
    return t


def day_values(series, day):
    """list of the values of one day, in order"""
    return list(series[hours_of(series.index, day)].array)


def expected_hours(daily_index):
    out = []
    for d in daily_index:
        out += [d + pd.Timedelta(hours=h) for h in range(24)]
    return out


def pick_days(env, start, n, name='day', always=()):
    """a set of days out of n consecutive ones; the membership of each is an arbitrary choice
    (the first and the last day are always in)"""
    full = days(start, n)
    keep = []
    for i, d in enumerate(full):
        if i in (0, n - 1) or i in always or env.choice('%s%d' % (name, i), [True, False]):
            keep.append(d)
    return full if len(keep) == n else pd.DatetimeIndex(keep)


def maybe_missing(env, name, n, lo, hi, **k):
    """n values, each of them arbitrary or missing; -> (values, missing flags)"""
    vals, miss = [], []
    for i in range(n):
        m = env.choice('%s%d_missing' % (name, i), [False, True])
        miss.append(m)
        vals.append(NAN if m else env.real('%s%d' % (name, i), lo, hi, **k))
    return vals, miss


def same(env, x, y):
    if isnan_(x) or isnan_(y):
        return isnan_(x) and isnan_(y)
    return env.eq(x, y)


def isnan_(x):
    return isinstance(x, float) and x != x


def snapshot(obj):
    """values of a series/frame for a later comparison"""
    if isinstance(obj, pd.DataFrame):
        return dict(index=list(obj.index), cols={c: list(obj[c].array) for c in obj.columns})
    return dict(index=list(obj.index), cols={None: list(obj.array)})


def check_unchanged(env, label, obj, snap):
    now = snapshot(obj)
    env.check(label, now['index'] == snap['index'] and list(now['cols']) == list(snap['cols']))
    for c, old in snap['cols'].items():
        new = now['cols'].get(c, [])
        ok = len(new) == len(old)
        env.check(label, ok)
        if ok:
            for x, y in zip(old, new):
                env.check(label, x is y or same(env, x, y))
