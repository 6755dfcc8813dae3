"""C14: hourly humidity is a percentage and missing only where inputs are missing"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import SAME_DAY, NAN, days, expected_hours
from .humid import METHODS, hourly_temp, table

NEEDS = {'equal': ['hum'], 'minimal': ['tmin'], 'dewpoint_regression': ['tmin'],
         'linear_dewpoint_variation': ['tmin'], 'min_max': ['tmin', 'tmax', 'hum_min', 'hum_max'],
         'month_hour_precip_mean': []}


def run(env, method, data, temp, tab, preserve, a0=1.0, a1=0.99):
    return env.call(melodist.disaggregate_humidity, data, method=method, temp=temp, a0=a0, a1=a1, kr=12,
                    month_hour_precip_mean=tab, preserve_daily_mean=preserve)


def columns(env, n, t_lo, t_hi, sym_day):
    c = dict(hum=[], tmin=[], tmax=[], hum_min=[], hum_max=[], precip=[])
    for i in range(n):
        if i == sym_day:
            c['hum'].append(env.real('hum', 0.0, 100.0))
            t = env.real('tmin', t_lo, t_hi)
            c['tmin'].append(t)
            c['tmax'].append(t + env.real('range', 0.5, 30.0))
            h = env.real('hum_min', 0.0, 100.0)
            c['hum_min'].append(h)
            c['hum_max'].append(env.real('hum_max', 0.0, 100.0))
            c['precip'].append(env.real('precip', 0.0, 50.0))
        else:
            c['hum'].append(55.0 + i)
            c['tmin'].append(0.5 * (t_lo + t_hi) + i)
            c['tmax'].append(0.5 * (t_lo + t_hi) + 9.0 + i)
            c['hum_min'].append(30.0 + i)
            c['hum_max'].append(95.0 - i)
            c['precip'].append(1.5 * i)
    return c


def bounded(env, method, preserve, start, n, t_lo, t_hi, sym):
    """range of the result for arbitrary inputs of one day and arbitrary hourly temperatures"""
    idx = days(start, n)
    c = columns(env, n, t_lo, t_hi, 0)
    temp, tv = hourly_temp(env, idx, [0.5 * (t_lo + t_hi)] * n, sym, t_lo - 10.0, t_hi + 30.0)
    tab, look = table(env, set((idx[0].month, h, w) for h in (0, 23) for w in (True, False))
                      if method == 'month_hour_precip_mean' else set())
    out = run(env, method, env.frame(c, idx), temp, tab, preserve)
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    for x in out.array:
        if isnan(x):
            env.check('value where the inputs are complete', False)
            continue
        env.check('not below zero', env.le(0.0, x))
        env.check('not above one hundred', env.le(x, 100.0))


def isolated(env, method, preserve, start, n, nan_day, t_lo=276.0, t_hi=290.0):
    """missing inputs of one day do not touch the other days"""
    idx = days(start, n)
    other = 0 if nan_day != 0 else n - 1
    c = columns(env, n, t_lo, t_hi, other)
    temp, tv = hourly_temp(env, idx, [0.5 * (t_lo + t_hi)] * n, ((other, 6),), t_lo, t_hi)
    tab, look = table(env, set())
    ref = run(env, method, env.frame(c, idx), temp, tab, preserve)
    cols = [k for k in c if k != 'precip']
    what = env.choice('missing', cols)
    c2 = {k: list(v) for k, v in c.items()}
    c2[what][nan_day] = NAN
    out = run(env, method, env.frame(c2, idx), temp, tab, preserve)
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    rv, ov = list(ref.array), list(out.array)
    if len(ov) != 24 * n:
        return
    for d in range(n):
        for h in range(24):
            x, y = rv[24 * d + h], ov[24 * d + h]
            if d == nan_day:
                if what in NEEDS[method]:
                    env.check_nan('missing where needed inputs are missing', y)
                elif not (preserve and what == 'hum'):
                    env.check_eq('other columns are not used', y, x)
            elif not (method == 'linear_dewpoint_variation' and d == nan_day - 1):
                env.check_eq('other days are not touched', y, x)


def obligations(tier, seed):
    obs = []
    for method in METHODS:
        for p in (False, True):
            tag = '%s%s' % (method, '-preserve' if p else '')
            for rng, (lo, hi) in (('warm', (274.0, 300.0)), ('cold', (240.0, 263.0))):
                if method in ('equal', 'month_hour_precip_mean') and rng == 'cold':
                    continue
                sym = ((0, 0), (0, 14)) if rng == 'warm' else ((0, 23),)
                obs.append(Ob('range-%s-%s' % (tag, rng), bounded, dict(
                    method=method, preserve=p, start='2016-02-28', n=2, t_lo=lo, t_hi=hi, sym=sym),
                    bounds='2 days; all daily inputs of one day symbolic, %d hourly temperatures '
                           'symbolic' % len(sym), weight=2 if p else 1))
            obs.append(Ob('isolated-%s' % tag, isolated, dict(
                method=method, preserve=p, start='2015-12-30', n=3, nan_day=1),
                bounds='3 days, any one daily input of the middle day missing'))
            obs.append(Ob('same-day-%s' % tag, isolated, dict(
                method=method, preserve=p, start=SAME_DAY, n=4, nan_day=3),
                bounds='4 days of different months and years, any one daily input of one day missing'))
    return obs
