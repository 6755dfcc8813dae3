"""C17: mean-preserving humidity correction restores the daily mean"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import SAME_DAY, NAN, check_unchanged, days, expected_hours, snapshot, total
from .humid import clip, hourly_temp, table


def run(env, method, data, temp, tab, preserve, via):
    kw = dict(a0=0.5, a1=0.99, kr=12, month_hour_precip_mean=tab)
    if via == 'function':
        return env.call(melodist.disaggregate_humidity, data, method=method, temp=temp,
                        preserve_daily_mean=preserve, **kw)
    st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=data)
    st.statistics.hum.update(**kw)
    st.data_disagg['temp'] = temp
    env.call(st.disaggregate_humidity, method=method, preserve_daily_mean=preserve)
    return st.data_disagg.hum


def correction(env, method, start, n, lo, hi, sym_hours, nan=False, gap=None, via='function',
               unlimited=False):
    idx = days(start, n) if gap is None else pd.DatetimeIndex(gap)
    n = len(idx)
    hum = []
    for i in range(n):
        if nan and env.choice('hum%d_missing' % i, [False, True]):
            hum.append(NAN)
        else:
            hum.append(env.real('hum%d' % i, lo, hi))
    cats = set((d.month, h, False) for d in idx for h in sym_hours)
    tab, look = table(env, cats if method == 'month_hour_precip_mean' else set())
    cols = dict(hum=hum, tmin=[275.0 + i for i in range(n)], tmax=[290.0 + i for i in range(n)],
                hum_min=[30.0 + 2 * i for i in range(n)], hum_max=[90.0 - i for i in range(n)],
                precip=[0.0] * n)
    sym = set() if method == 'month_hour_precip_mean' else set((d, h) for d in range(n) for h in sym_hours[:1])
    temp, tv = hourly_temp(env, idx, cols['tmin'], sym, 277.0, 289.0)
    data = env.frame(cols, idx)
    snap = snapshot(data)
    plain = run(env, method, data, temp, tab, False, via)
    out = run(env, method, data, temp, tab, True, via)
    env.observe(out)
    check_unchanged(env, 'daily input left unchanged', data, snap)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    ov, pv = list(out.array), list(plain.array)
    if len(ov) != 24 * n:
        return
    for d in range(n):
        u, o = pv[24 * d: 24 * d + 24], ov[24 * d: 24 * d + 24]
        if isnan(hum[d]):
            for x, y in zip(u, o):
                env.check_eq('no shift without an observed mean', y, x)
            continue
        if any(isnan(x) for x in o):
            env.check('value on days with data', False)
            continue
        m = total(u) / 24.0
        for x, y in zip(u, o):
            env.check_eq('one shift for the whole day', y, clip(env, x + (hum[d] - m)), scale=5)
        if unlimited:
            env.check_eq('daily mean restored', total(o), 24.0 * hum[d], scale=24)


def obligations(tier, seed):
    obs = []
    b = '%d days; observed means symbolic, uncorrected values symbolic at some hours'
    for method in ('minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max',
                   'month_hour_precip_mean', 'equal'):
        # close to the mean of the uncorrected values: no limits reached
        lo, hi = {'minimal': (60.0, 75.0), 'dewpoint_regression': (45.0, 60.0),
                  'linear_dewpoint_variation': (48.0, 60.0), 'min_max': (55.0, 70.0),
                  'month_hour_precip_mean': (50.0, 55.0), 'equal': (0.0, 100.0)}[method]
        obs.append(Ob('limits-%s' % method, correction, dict(
            method=method, start='2016-02-28', n=2, lo=0.0, hi=100.0, sym_hours=(0, 23)),
            bounds=b % 2, weight=2))
        obs.append(Ob('missing-%s' % method, correction, dict(
            method=method, start='2015-12-31', n=3, lo=lo, hi=hi, sym_hours=(), nan=True),
            bounds=b % 3 + ', every missing pattern of the means'))
    for method in ('minimal', 'month_hour_precip_mean', 'equal'):
        obs.append(Ob('gaps-%s' % method, correction, dict(
            method=method, start=None, n=None, lo=50.0, hi=55.0, sym_hours=(),
            gap=['2016-02-27', '2016-02-29', '2016-03-29']), bounds=b % 3 + ', calendar gaps'))
        obs.append(Ob('same-day-%s' % method, correction, dict(
            method=method, start=None, n=None, lo=50.0, hi=55.0, sym_hours=(), nan=True,
            gap=list(SAME_DAY)), bounds=b % 4 + ', different months and years, every missing pattern'))
        obs.append(Ob('station-%s' % method, correction, dict(
            method=method, start='2016-02-28', n=2, lo=50.0, hi=75.0, sym_hours=(5,), via='station'),
            bounds=b % 2))
    return obs
