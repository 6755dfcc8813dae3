"""C18: hourly wind follows the chosen distribution of the daily mean"""
import math

import numpy as np
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import (SAME_DAY, check_unchanged, day_values, days, expected_hours, maybe_missing, pick_days,
                     snapshot, total)


def values(out):
    return list(np.asarray(out, dtype=object).ravel())


def check_cosine(env, vals, idx, daily, a, b, shift):
    env.check('one value per hour', len(vals) == 24 * len(idx))
    for i in range(len(idx)):
        v = vals[24 * i: 24 * i + 24]
        w = daily[i]
        if isnan(w):
            for x in v:
                env.check_nan('missing day is missing in its own hours', x)
            continue
        for h, x in enumerate(v):
            if isnan(x):
                env.check_not_nan('value on days with data', x)
                continue
            env.check_eq('cosine course of the own hour', x,
                         w * (a * env.cos(math.pi * (h - shift) / 12) + b), scale=10)
        if not any(isnan(x) for x in v):
            env.check_eq('daily average is b times the daily mean', total(v), 24 * b * w, scale=24)


def cosine(env, start, n, via, gap=False, shift=None):
    idx = pick_days(env, start, n) if gap else days(start, n)
    if gap:
        daily = env.reals('wind', len(idx), 0.0, 40.0)
    else:
        daily, miss = maybe_missing(env, 'wind', n, 0.0, 40.0)
    a = env.real('a', -1.0, 1.0)
    b = env.real('b', 0.0, 2.0)
    s = env.real('shift', 0.0, 24.0) if shift is None else shift
    ser = env.series(daily, idx)
    if via == 'function':
        snap = snapshot(ser)
        out = env.call(melodist.disaggregate_wind, ser, method='cosine', a=a, b=b, t_shift=s)
        check_unchanged(env, 'input left unchanged', ser, snap)
    else:
        st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1,
                      data_daily=pd.DataFrame({'wind': ser}))
        st.statistics.wind.update(a=a, b=b, t_shift=s)
        env.call(st.disaggregate_wind, method='cosine')
        out = st.data_disagg.wind
    vals = values(out)
    env.observe(vals)
    check_cosine(env, vals, idx, daily, a, b, s)


def random_(env, start, n, sym_at):
    """every hour uses its own random number: the set of factors of a day is checked hour by
    hour against the draws in order"""
    idx = days(start, n)
    daily, miss = maybe_missing(env, 'wind', n, 0.0, 40.0)
    const = [0.07, 0.93, 0.5, 0.31, 0.68]
    drawn = {}

    def hook(i):
        if i in sym_at:
            drawn[i] = env.real('draw%d' % i, 0.001, 0.999)
        else:
            drawn[i] = const[i % 5]
        return drawn[i]

    env.draw_hook = hook
    ser = env.series(daily, idx)
    out = env.call(melodist.disaggregate_wind, ser, method='random')
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    vals = list(out.array)
    env.check('one random number per hour', len(drawn) == len(vals))
    for i, d in enumerate(idx):
        for h in range(24):
            x = vals[24 * i + h]
            if isnan(daily[i]):
                env.check_nan('missing day is missing in its own hours', x)
                continue
            u = drawn.get(24 * i + h)
            f = power(env, -env.log(u), 0.3)
            env.check_eq('value follows the random number of the hour', x, daily[i] * f, scale=10)
            env.check('not negative', env.le(0.0, x))


def power(env, x, p):
    if env.mode == 'conc':
        return x ** p
    from engine import sym
    return sym.as_sym(x) ** p


def equal_draws(env, start, n, via):
    """all random numbers equal: independent of the order in which they are used"""
    idx = days(start, n)
    daily = env.reals('wind', n, 0.0, 40.0)
    u = env.real('u', 0.001, 0.999)
    env.draw_hook = lambda i: u
    ser = env.series(daily, idx)
    if via == 'function':
        out = env.call(melodist.disaggregate_wind, ser, method='random')
    else:
        st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1,
                      data_daily=pd.DataFrame({'wind': ser}))
        env.call(st.disaggregate_wind, method='random')
        out = st.data_disagg.wind
    f = power(env, -env.log(u), 0.3)
    for i, d in enumerate(idx):
        for x in day_values(out, d):
            env.check_eq('factor of the random number times the daily mean', x, daily[i] * f, scale=10)


def obligations(tier, seed):
    obs = []
    for via in ('function', 'station'):
        obs.append(Ob('cosine-%s' % via, cosine, dict(start='2015-12-30', n=3, via=via),
                      bounds='3 days, every missing pattern; daily means, a, b, shift symbolic'))
        obs.append(Ob('cosine-fixed-shift-%s' % via, cosine, dict(start='2016-02-28', n=2, via=via,
                                                                 shift=3.5),
                      bounds='2 days; daily means, a, b symbolic'))
        obs.append(Ob('equal-draws-%s' % via, equal_draws, dict(start='2016-02-28', n=2, via=via),
                      bounds='2 days, one symbolic random number for all hours'))
    obs.append(Ob('cosine-gaps', cosine, dict(start='2016-02-27', n=4, via='function', gap=True,
                                              shift=-2.25),
                  bounds='every subset of 4 days containing first and last'))
    obs.append(Ob('cosine-same-day', cosine, dict(start=SAME_DAY, n=4, via='function', shift=1.5),
                  bounds='4 days of different months and years, every missing pattern'))
    obs.append(Ob('random-same-day', random_, dict(start=SAME_DAY, n=4, sym_at=(0, 30, 95)),
                  bounds='4 days of different months and years, every missing pattern'))
    obs.append(Ob('random', random_, dict(start='2016-12-30', n=3, sym_at=(0, 1, 23, 24, 47, 71)),
                  bounds='3 days, every missing pattern; six random numbers symbolic'))
    return obs
