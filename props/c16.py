"""C16: min/max and categorical humidity map temperature and category correctly"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import SAME_DAY, NAN, check_unchanged, days, expected_hours, snapshot
from .humid import clip, hourly_temp, table


def min_max(env, start, n, sym, inside, nan_day=None, via='function', sym_day=0):
    """one day with arbitrary extremes, the others fixed; temperatures of some hours arbitrary"""
    idx = days(start, n)
    cols = dict(tmin=[], tmax=[], hum_min=[], hum_max=[], hum=[])
    for i in range(n):
        if i == sym_day:
            lo = env.real('tmin', 250.0, 290.0)
            rng = env.real('range', 1.0, 30.0)
            hm = env.real('hum_min', 0.0, 100.0)
            hx = env.real('hum_max', 0.0, 100.0)
            env.assume(hm <= hx)
            cols['tmin'].append(lo)
            cols['tmax'].append(lo + rng)
            cols['hum_min'].append(hm)
            cols['hum_max'].append(hx)
        else:
            cols['tmin'].append(270.0 + i)
            cols['tmax'].append(280.0 + i)
            cols['hum_min'].append(35.0 + i)
            cols['hum_max'].append(95.0 - i)
        cols['hum'].append(60.0)
    if nan_day is not None:
        what = env.choice('missing', ['nothing', 'tmin', 'tmax', 'hum_min', 'hum_max'])
        if what != 'nothing':
            cols[what][nan_day] = NAN
    base = [270.0 + i for i in range(n)]
    temp, tv = hourly_temp(env, idx, base, sym, 240.0, 325.0)
    if inside:
        for d, h in sym:
            t = tv[24 * d + h]
            env.assume(t >= cols['tmin'][d])
            env.assume(t <= cols['tmax'][d])
        for h in range(24):  # fixed hours of the symbolic day move with its extremes
            if (sym_day, h) not in sym:
                tv[24 * sym_day + h] = cols['tmin'][sym_day] + (h % 9) / 8.0 * (
                    cols['tmax'][sym_day] - cols['tmin'][sym_day])
        temp = env.series(tv, temp.index)
    data = env.frame(cols, idx)
    if via == 'function':
        snap = snapshot(data)
        out = env.call(melodist.disaggregate_humidity, data, method='min_max', temp=temp)
        check_unchanged(env, 'daily input left unchanged', data, snap)
    else:
        st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=data)
        st.data_disagg['temp'] = temp
        env.call(st.disaggregate_humidity, method='min_max')
        out = st.data_disagg.hum
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    ov = list(out.array)
    for d in range(n):
        c = {k: v[d] for k, v in cols.items()}
        for h in range(24):
            x, t = ov[24 * d + h], tv[24 * d + h]
            if any(isnan(v) for v in c.values()):
                env.check_nan('missing without extremes', x)
                continue
            if isnan(x):
                env.check_not_nan('value where the inputs are known', x)
                continue
            lin = c['hum_max'] + (t - c['tmin']) / (c['tmax'] - c['tmin']) * (c['hum_min'] - c['hum_max'])
            if inside and d == sym_day:
                env.check_eq('linear from maximum to minimum', x, lin, scale=5)
            else:
                env.check_eq('linear from maximum to minimum', x, clip(env, lin), scale=5)


def categorical(env, start, n, gap, sym_hours, via='function', missing=False):
    """wet or dry days in any month, means of the categories arbitrary at some hours"""
    idx = days(start, n) if not gap else pd.DatetimeIndex(gap)
    n = len(idx)
    precip = []
    for i in range(n):
        k = env.choice('kind%d' % i, ['dry', 'wet'])
        precip.append(0.0 if k == 'dry' else env.real('precip%d' % i, 0.0, 50.0, open_lo=True))
    symkeys = [(d.month, h, w) for d in idx for h in sym_hours for w in (False, True)]
    tab, look = table(env, set(symkeys))
    data = env.frame(dict(precip=precip, hum=[60.0] * n), idx)
    if via == 'function':
        snap = snapshot(data)
        out = env.call(melodist.disaggregate_humidity, data, method='month_hour_precip_mean',
                       month_hour_precip_mean=tab)
        check_unchanged(env, 'daily input left unchanged', data, snap)
    else:
        st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=data)
        st.statistics.hum.month_hour_precip_mean = tab
        env.call(st.disaggregate_humidity, method='month_hour_precip_mean')
        out = st.data_disagg.hum
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    ov = list(out.array)
    for i, d in enumerate(idx):
        wet = bool(precip[i] != 0.0) if isinstance(precip[i], float) else True
        for h in range(24):
            env.check_eq('mean of the own month, hour and category', ov[24 * i + h],
                         look[(d.month, h, wet)])


def obligations(tier, seed):
    obs = []
    b = '%d days; extremes of one day symbolic, %d hourly temperatures symbolic'
    for via in ('function', 'station'):
        obs.append(Ob('min-max-inside-%s' % via, min_max, dict(
            start='2016-02-28', n=2, sym=((0, 0), (0, 23)), inside=True, via=via), bounds=b % (2, 2)))
        obs.append(Ob('categorical-%s' % via, categorical, dict(
            start='2016-02-28', n=3, gap=None, sym_hours=(0, 12, 23), via=via),
            bounds='3 days over a month change, each wet or dry; means of 3 hours symbolic'))
    obs.append(Ob('min-max-second-day', min_max, dict(
        start='2015-12-31', n=3, sym=((1, 0), (1, 23)), inside=True, sym_day=1), bounds=b % (3, 2)))
    obs.append(Ob('min-max-clipped', min_max, dict(
        start='2016-02-28', n=2, sym=((1, 7), (1, 8)), inside=False), bounds=b % (2, 2) +
        ', temperatures also outside the extremes'))
    obs.append(Ob('min-max-missing', min_max, dict(
        start='2015-12-31', n=3, sym=((0, 3),), inside=True, nan_day=1), bounds=b % (3, 1)))
    obs.append(Ob('min-max-same-day', min_max, dict(
        start=SAME_DAY, n=4, sym=((2, 0), (2, 23)), inside=True, sym_day=2, nan_day=0), bounds=b % (4, 2)))
    obs.append(Ob('categorical-same-day', categorical, dict(
        start=None, n=None, gap=list(SAME_DAY), sym_hours=(3, 20)),
        bounds='4 days of different months and years, each wet or dry'))
    obs.append(Ob('categorical-year', categorical, dict(
        start='2015-12-30', n=4, gap=None, sym_hours=(6, 23)),
        bounds='4 days over a year change, each wet or dry'))
    obs.append(Ob('categorical-months', categorical, dict(
        start=None, n=None, gap=['2016-03-15', '2016-07-15', '2016-11-30', '2017-01-01'], sym_hours=(0,)),
        bounds='4 days in different months'))
    return obs
