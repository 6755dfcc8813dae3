"""C11: hours of the temperature extremes follow the chosen option"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import days, expected_hours
from .temp import frame, sine_mean, sine_min_max, sun

DELTAS = [1.1, 2.2, 3.1, 0.3, 1.9, 2.8, 3.7, 4.2, 0.9, 1.4, 2.4, 3.3]


def extremes(env, start, n, option, sunrise, noon, shift=None, sym_day=0, mod=False, method='sine_min_max'):
    """sun times of one day arbitrary around every full hour of a range (ties excluded)"""
    idx = days(start, n)
    half = dict(open_lo=True, open_hi=True)
    rise, mid, los, his = [], [], [], []
    deltas = list(DELTAS)
    for i, day in enumerate(idx):
        if i == sym_day:
            lo = env.integer('rise_hour', *sunrise)
            k = env.integer('noon_hour', *noon)
            rise.append(lo + env.real('rise_offset', -0.5, 0.5, **half))
            mid.append(k + env.real('noon_offset', -0.5, 0.5, **half))
        else:
            lo, k = 5 + i, 12 + i % 2
            rise.append(lo + 0.45)
            mid.append(k - 0.35)
        los.append(lo)
        if option == 'sun_loc':
            his.append(k + 2)
        elif option == 'sun_loc_shift':
            if i == sym_day:
                m = env.integer('max_hour', *shift)
                deltas[day.month - 1] = m + env.real('max_offset', -0.5, 0.5, **half) - mid[i]
            else:
                m = int(round(mid[i] + deltas[day.month - 1]))
            his.append(m if lo <= m else k + 2)
    if option == 'fix':
        los, his = [7] * n, [14] * n
    tmin = [270.0 + 2 * i for i in range(n)]
    tmax = [281.0 + 3 * i for i in range(n)]
    tmin[sym_day] = env.real('tmin', 230.0, 300.0)
    tmax[sym_day] = tmin[sym_day] + env.real('range', 1.0, 40.0)
    st = sun(env, idx, rise, mid)
    k = dict(method=method, min_max_time=option, sun_times=st,
             max_delta=env.series(deltas, pd.Index(range(1, 13))))
    if mod:
        k['mod_nighttime'] = True
    data = frame(env, idx, tmin, tmax)
    out = env.call(melodist.disaggregate_temperature, data, **k)
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    ov = list(out.array)
    temp = list(data.temp.array)
    for d in range(n):
        for h in range(24):
            x = ov[24 * d + h]
            if isnan(x):
                env.check('value for every hour', False)
                continue
            if method == 'sine_mean':
                r = sine_mean(temp, tmin, tmax, d, h, his[d])
            else:
                r, _, _ = sine_min_max(tmin, tmax, d, h, los[d], his[d], mod)
            env.check_eq('extremes at their hours', x, r, scale=5)


def station_shift(env, start, n, option):
    """the shift of a station's own statistics and its own sun times are used"""
    idx = days(start, n)
    tmin = env.reals('tmin', n, 230.0, 300.0)
    tmax = [a + env.real('range%d' % i, 1.0, 40.0) for i, a in enumerate(tmin)]
    data = frame(env, idx, tmin, tmax)
    stn = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=data)
    st = env.call(melodist.util.get_sun_times, idx, 11.0, 47.0, 1)
    stn.statistics.temp.max_delta = env.series(DELTAS, pd.Index(range(1, 13)))
    env.call(stn.disaggregate_temperature, method='sine_min_max', min_max_time=option, mod_nighttime=True)
    ov = list(stn.data_disagg.temp.array)
    env.observe(ov)
    for d, day in enumerate(idx):
        lo = int(round(float(st.sunrise.iloc[d])))
        hi = int(round(float(st.sunnoon.iloc[d]))) + 2
        if option == 'sun_loc_shift':
            m = int(round(float(st.sunnoon.iloc[d]) + DELTAS[day.month - 1]))
            hi = m if lo <= m else hi
        for h in range(24):
            if isnan(ov[24 * d + h]):
                env.check('value for every hour', False)
                continue
            r, _, _ = sine_min_max(tmin, tmax, d, h, lo, hi, True)
            env.check_eq('extremes at their hours', ov[24 * d + h], r, scale=5)


def obligations(tier, seed):
    obs = []
    b = '%d days; sun times of one day symbolic around each full hour (ties excluded)'
    for mod in (False, True):
        t = '-night' if mod else ''
        obs.append(Ob('fix%s' % t, extremes, dict(start='2016-02-28', n=2, option='fix', sunrise=(4, 9),
                                                  noon=(11, 13), mod=mod), bounds=b % 2))
        obs.append(Ob('sun%s' % t, extremes, dict(start='2016-02-28', n=3, option='sun_loc', sym_day=1,
                                                  sunrise=(1, 10), noon=(10, 14), mod=mod), bounds=b % 3))
    for start, n, s in (('2016-01-31', 2, 1), ('2015-12-31', 2, 0), ('2016-07-31', 2, 0),
                        ('2016-10-15', 1, 0)):
        obs.append(Ob('shift-%s' % start, extremes, dict(
            start=start, n=n, option='sun_loc_shift', sym_day=s, sunrise=(5, 8), noon=(11, 13),
            shift=(3, 18)), bounds=b % n + ', shifted maximum 3..18 h', weight=3))
    obs.append(Ob('shift-night', extremes, dict(
        start='2016-04-30', n=2, option='sun_loc_shift', sym_day=0, sunrise=(6, 7), noon=(12, 12),
        shift=(4, 18), mod=True, method='sine_min_max'), bounds=b % 2, weight=3,
        tier='thorough'))
    for option in ('sun_loc', 'sun_loc_shift'):
        obs.append(Ob('mean-%s' % option, extremes, dict(
            start='2016-04-30', n=2, option=option, sym_day=0, sunrise=(6, 8), noon=(10, 13),
            shift=(10, 17), method='sine_mean'), bounds=b % 2))
        for start in ('2016-03-31', '2016-09-29', '2015-12-31'):
            obs.append(Ob('station-%s-%s' % (option, start), station_shift, dict(
                start=start, n=3, option=option), bounds='3 days at one site, extremes symbolic'))
    return obs
