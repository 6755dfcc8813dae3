"""shared inputs for the humidity obligations"""
import pandas as pd

from .common import NAN, expected_hours

T0 = 273.15
COEF = {True: (17.62, 243.12), False: (22.46, 272.62)}
METHODS = ['equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max',
           'month_hour_precip_mean']


def sat(env, t):
    """saturation vapour pressure (up to the common factor)"""
    a, b = COEF[env.branch(t >= T0)]
    return env.exp(a * (t - T0) / (b + (t - T0)))


def course(h):
    """fixed hourly offset of the temperature from the daily minimum"""
    return 1.0 + 0.35 * ((h * 7) % 24)


def hourly_temp(env, idx, base, sym, lo, hi, missing=()):
    """hourly temperatures: fixed course above base[d] except for the (day, hour) in sym"""
    vals = []
    for d in range(len(idx)):
        for h in range(24):
            if (d, h) in missing:
                vals.append(NAN)
            elif (d, h) in sym:
                vals.append(env.real('temp%d_%d' % (d, h), lo, hi))
            else:
                vals.append(base[d] + course(h))
    return env.series(vals, pd.DatetimeIndex(expected_hours(idx))), vals


def table(env, sym, months=range(1, 13)):
    """categorical means by month, hour and wet/dry; the categories in sym are arbitrary"""
    keys, vals = [], []
    for m in months:
        for h in range(24):
            for wet in (False, True):
                keys.append((m, h, wet))
                if (m, h, wet) in sym:
                    vals.append(env.real('cat%d_%d_%d' % (m, h, wet), 0.0, 100.0))
                else:
                    vals.append(float(20 + (m * 5 + h * 2 + 13 * wet) % 60))
    s = env.series(vals, pd.MultiIndex.from_tuples(keys))
    return s, dict(zip(keys, vals))


def clip(env, x):
    return env.min_(env.max_(x, env.const(0.0)), env.const(100.0))
