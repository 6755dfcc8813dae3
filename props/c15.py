"""C15: dew-point humidity is the ratio of saturation vapour pressures"""
import math

import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import SAME_DAY, NAN, check_unchanged, days, expected_hours, snapshot
from .humid import T0, clip, hourly_temp, sat


def dew(env, method, tdew_d, nxt, h, kr):
    if method != 'linear_dewpoint_variation':
        return tdew_d
    delta = 0.5 * math.sin((h + 1) * math.pi / kr - 3.0 * math.pi / 4.0)
    return tdew_d + h / 24.0 * (nxt - tdew_d) + delta


def ratio(env, method, start, n, tmin, sym, t_range, params, kr=None, nan_day=None, via='function'):
    """tmin: per day a range (symbolic) or a constant"""
    idx = days(start, n)
    lows = []
    for i, r in enumerate(tmin):
        if i == nan_day and env.choice('missing%d' % i, [True, False]):
            lows.append(NAN)
        else:
            lows.append(env.real('tmin%d' % i, *r) if isinstance(r, tuple) else r)
    base = [0.5 * (r[0] + r[1]) if isinstance(r, tuple) else r for r in tmin]
    temp, tv = hourly_temp(env, idx, base, sym, *t_range)
    if params == 'symbolic':
        a1 = env.real('slope', 0.9, 1.1)
        a0 = env.real('offset', -5.0, 5.0)
    else:
        a0, a1 = params
    tdew = []
    for x in lows:
        tdew.append(x if method == 'minimal' else a0 + a1 * x)
    data = env.frame(dict(tmin=lows, hum=[70.0] * n), idx)
    if via == 'function':
        snap, snap2 = snapshot(data), snapshot(temp)
        out = env.call(melodist.disaggregate_humidity, data, method=method, temp=temp, a0=a0, a1=a1,
                       kr=kr)
        check_unchanged(env, 'daily input left unchanged', data, snap)
        check_unchanged(env, 'temperature left unchanged', temp, snap2)
    else:
        st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=data)
        st.statistics.hum.update(a0=a0, a1=a1, kr=kr)
        st.data_disagg['temp'] = temp
        env.call(st.disaggregate_humidity, method=method)
        out = st.data_disagg.hum
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    ov = list(out.array)
    if len(ov) != 24 * n:
        return
    for d in range(n):
        nxt = tdew[d + 1] if d + 1 < n else tdew[d]
        for h in range(24):
            x, t = ov[24 * d + h], tv[24 * d + h]
            td = dew(env, method, tdew[d], nxt, h, kr)
            if isnan(td):
                env.check_nan('missing without dew point', x)
                continue
            if isnan(x):
                env.check_not_nan('value where the inputs are known', x)
                continue
            r = 100.0 * sat(env, td) / sat(env, t)
            env.check_eq('ratio of saturation pressures', x, clip(env, r), scale=5)


def obligations(tier, seed):
    obs = []
    warm, cold = (275.0, 290.0), (250.0, 272.0)
    b = '%d days from %s, daily minima %s, hours %s symbolic, others on a fixed course'

    def add(name, **k):
        tier = k.pop('tier', 'quick')
        obs.append(Ob(name, ratio, k, bounds=b % (k['n'], k['start'], k['tmin'], k['sym']), tier=tier))

    sym = ((0, 0), (0, 15), (1, 23))
    for via in ('function', 'station'):
        add('minimal-warm-%s' % via, method='minimal', start='2016-02-28', n=2, tmin=[warm, warm],
            sym=sym, t_range=(274.0, 310.0), params=(None, None), via=via)
        add('minimal-cold-%s' % via, method='minimal', start='2015-12-31', n=2, tmin=[cold, cold],
            sym=sym, t_range=(240.0, 272.5), params=(None, None), via=via)
        add('regression-warm-%s' % via, method='dewpoint_regression', start='2016-02-28', n=2,
            tmin=[(290.0, 291.0), 288.0], sym=sym, t_range=(280.0, 310.0), params=(14.0, 0.95), via=via)
        add('linear-warm-%s' % via, method='linear_dewpoint_variation', start='2016-02-28', n=3,
            tmin=[warm, (276.0, 289.0), warm], sym=((0, 0), (1, 12), (2, 23)), t_range=(274.0, 310.0),
            params=(0.0, 1.0), kr=12, via=via)
    add('minimal-freezing', method='minimal', start='2016-02-28', n=2, tmin=[(268.0, 278.0)] * 2,
        sym=((0, 3), (1, 20)), t_range=(265.0, 285.0), params=(None, None))
    add('minimal-missing', method='minimal', start='2016-02-28', n=3, tmin=[warm] * 3,
        sym=((0, 23), (2, 0)), t_range=(274.0, 310.0), params=(None, None), nan_day=1)
    add('minimal-same-day', method='minimal', start=SAME_DAY, n=4, tmin=[warm] * 4,
        sym=((0, 3), (3, 20)), t_range=(274.0, 310.0), params=(None, None), nan_day=1)
    add('regression-same-day', method='dewpoint_regression', start=SAME_DAY, n=4, tmin=[(275.0, 280.0)] * 4,
        sym=((2, 5),), t_range=(280.0, 310.0), params=(14.0, 0.95), nan_day=0)
    add('regression-parameters', method='dewpoint_regression', start='2016-02-28', n=2,
        tmin=[320.0, 321.5], sym=((0, 5),), t_range=(274.0, 325.0), params='symbolic')
    add('regression-missing', method='dewpoint_regression', start='2016-12-30', n=3,
        tmin=[(275.0, 280.0)] * 3, sym=((1, 5),), t_range=(280.0, 310.0), params=(14.0, 0.95), nan_day=0)
    add('linear-cold', method='linear_dewpoint_variation', start='2015-12-31', n=2,
        tmin=[cold, (255.0, 270.0)], sym=((0, 4), (1, 20)), t_range=(250.0, 272.0), params=(-2.0, 1.0),
        kr=6)
    add('linear-regression', method='linear_dewpoint_variation', start='2015-12-31', n=2,
        tmin=[(280.0, 290.0), (281.0, 290.0)], sym=((0, 4), (1, 20)), t_range=(274.0, 300.0),
        params=(7.5, 0.98), kr=12)
    add('linear-freezing', method='linear_dewpoint_variation', start='2016-02-28', n=2,
        tmin=[(270.0, 276.0), 274.0], sym=((0, 4),), t_range=(268.0, 280.0), params=(0.0, 1.0), kr=12)
    add('linear-freezing-both', method='linear_dewpoint_variation', start='2016-02-28', n=2,
        tmin=[(270.0, 276.0), (270.0, 276.0)], sym=(), t_range=(268.0, 280.0), params=(0.0, 1.0), kr=6,
        tier='thorough')
    return obs
