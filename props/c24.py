"""C24: sub-daily indices contain exactly the sub-intervals of the given days"""
import pandas as pd

import melodist
import melodist.util
from engine.harness import Ob
from .common import days, pick_days

US = pd.Timedelta(microseconds=1)
DAY_US = 24 * 3600 * 10 ** 6


def expected(idx, per_day):
    step = DAY_US // per_day
    return [d + i * step * US for d in idx for i in range(per_day)]


def call(env, kind, idx, fill, level=None):
    if kind == 'hourly':
        return env.call(melodist.util.hourly_index, idx, fill_gaps=fill), 24
    if kind == 'five-minute':
        return env.call(melodist.fmin_index, idx, fill_gaps=fill), 288
    return env.call(melodist.sub_level_index, idx, level=level, fill_gaps=fill), 2 ** level


def subset(env, kind, start, n, level=None, fill=None):
    """every set of days that contains the first and last of n consecutive ones"""
    idx = pick_days(env, start, n)
    fill = env.choice('fill_gaps', [False, True]) if fill is None else fill
    # values attached to the hours: the index must accept exactly the hours of the days
    got, per_day = call(env, kind, idx, fill, level)
    use = days(start, n) if fill else idx
    exp = expected(use, per_day)
    env.check('exactly the sub-intervals of the days, in order', list(got) == exp)
    env.observe(float(len(got)))


def position(env, kind, start, span, gap, level=None):
    """two blocks of days whose position in the calendar and distance are arbitrary"""
    off = env.integer('first', 0, span)
    d0 = pd.Timestamp(start) + pd.Timedelta(days=off)
    g = env.integer('gap', 0, gap)
    n = env.integer('length', 1, 2)
    idx = days(d0, n).append(days(d0 + pd.Timedelta(days=n + g), 1))
    got, per_day = call(env, kind, idx, False, level)
    env.check('exactly the sub-intervals of the days, in order', list(got) == expected(idx, per_day))


def single(env, kind, start, span, level=None):
    off = env.integer('first', 0, span)
    idx = days(pd.Timestamp(start) + pd.Timedelta(days=off), 1)
    got, per_day = call(env, kind, idx, env.choice('fill', [False, True]), level)
    env.check('exactly the sub-intervals of the day, in order', list(got) == expected(idx, per_day))


def attached(env, start, n):
    """values of a daily series stay attached to their own day"""
    idx = pick_days(env, start, n)
    vals = env.reals('v', len(idx), -50.0, 50.0)
    out = env.call(melodist.distribute_equally, env.series(vals, idx))
    exp = expected(idx, 24)
    env.check('exactly the hours of the days, in order', list(out.index) == exp)
    for i, x in enumerate(out.array):
        env.check_eq('value of the own day', x, vals[min(i // 24, len(vals) - 1)])


def obligations(tier, seed):
    obs = []
    sub = 'every subset of %d days containing the first and the last, gaps filled or not'
    pos = 'first day anywhere in %d days from %s, block of 1-2 days, gap of 0-%d days, one more day'
    for start in ('2016-02-26', '2015-12-29', '2019-02-26'):
        obs.append(Ob('hourly-subsets-%s' % start, subset, dict(kind='hourly', start=start, n=6),
                      bounds=sub % 6))
    obs.append(Ob('hourly-positions', position, dict(kind='hourly', start='2015-12-25', span=70, gap=3),
                  bounds=pos % (70, '2015-12-25', 3)))
    obs.append(Ob('hourly-single', single, dict(kind='hourly', start='2016-02-20', span=20),
                  bounds='single days'))
    obs.append(Ob('hourly-values', attached, dict(start='2016-02-27', n=6),
                  bounds=sub % 6 + '; values symbolic'))
    for start in ('2016-02-27', '2015-12-30'):
        obs.append(Ob('five-minute-subsets-%s' % start, subset,
                      dict(kind='five-minute', start=start, n=5), bounds=sub % 5))
        for level in (9, 10, 11):
            obs.append(Ob('level%d-subsets-%s' % (level, start), subset,
                          dict(kind='level', start=start, n=4, level=level), bounds=sub % 4))
    for k, level in (('five-minute', None), ('level', 9), ('level', 11)):
        obs.append(Ob('%s%s-positions' % (k, level or ''), position,
                      dict(kind=k, start='2016-02-26', span=6, gap=2, level=level),
                      bounds=pos % (6, '2016-02-26', 2)))
        obs.append(Ob('%s%s-single' % (k, level or ''), single,
                      dict(kind=k, start='2016-02-27', span=4, level=level), bounds='single days'))
    return obs
