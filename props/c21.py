"""C21: radiation from temperature range follows the Bristow-Campbell model"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import SAME_DAY, check_unchanged, days, expected_hours, snapshot, total
from .rad import check_scaled, day_course, hourly
from .temp import sun


def power(env, x, p):
    if env.mode == 'conc':
        return x ** p
    from engine import sym
    return sym.as_sym(x) ** p


def bristow(env, dates, params, via='function', sym_days=None):
    idx = pd.DatetimeIndex(dates)
    n = len(idx)
    sym_days = range(n) if sym_days is None else sym_days
    tmin = [env.real('tmin%d' % i, 260.0, 290.0) if i in sym_days else 270.0 + i for i in range(n)]
    nxt = []  # minimum of the next day, None if that day is absent
    for i, d in enumerate(idx):
        if i == n - 1:
            nxt.append(tmin[i])
        else:
            nxt.append(tmin[i + 1] if idx[i + 1] - d == pd.Timedelta(days=1) else None)
    dt, tmax = [], []
    for i in range(n):
        r = env.real('dt%d' % i, 1.0, 25.0) if i in sym_days else 8.0 + i
        dt.append(r)
        tmax.append(r + (tmin[i] + (tmin[i] if nxt[i] is None else nxt[i])) / 2)
    if params == 'constant':
        A = [env.real('A', 0.3, 0.9)] * 12
        C = [2.4] * 12
        pa, pc = A[0], C[0]
    else:
        A = [0.6 + 0.01 * m for m in range(12)]
        C = [2.0 + 0.05 * m for m in range(12)]
        for m in sorted(set(idx.month)):
            A[m - 1] = env.real('A%d' % m, 0.3, 0.9)
            if params == 'all':
                C[m - 1] = env.real('C%d' % m, 1.5, 3.0)
        pa, pc = (env.series(x, pd.Index(range(1, 13))) for x in (A, C))
    courses = [day_course(env, i, ()) for i in range(n)]
    pot = hourly(env, idx, courses)
    data = env.frame(dict(tmin=tmin, tmax=tmax), idx)
    if via == 'function':
        snap = snapshot(data)
        out = env.call(melodist.disaggregate_radiation, data, sun_times=sun(env, idx), pot_rad=pot,
                       method='pot_rad_via_bc', bristcamp_a=pa, bristcamp_c=pc)
        check_unchanged(env, 'daily input left unchanged', data, snap)
    elif via == 'daily':
        potd = env.series([total(c) / 24.0 for c in courses], idx)
        out = env.call(melodist.bristow_campbell, data.tmin, data.tmax, potd, pa, pc)
    else:
        stn = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=data)
        stn.statistics.glob.bristcamp = pd.DataFrame(dict(a=pa, c=pc))
        env.call(stn.disaggregate_radiation, method='pot_rad_via_bc', pot_rad=pot)
        out = stn.data_disagg.glob
    env.observe(out)
    if via == 'daily':
        env.check('one value per day', list(out.index) == list(idx))
    else:
        env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    ov = list(out.array)
    for i, d in enumerate(idx):
        v = ov[i: i + 1] if via == 'daily' else ov[24 * i: 24 * i + 24]
        if nxt[i] is None:  # the next day's minimum is unknown
            continue
        if any(isnan(x) for x in v):
            env.check('value on days with data', False)
            continue
        month = [dt[k] for k in range(n) if idx[k].month == d.month and nxt[k] is not None]
        B = 0.036 * env.exp(-0.154 * (total(month) / len(month)))
        a, c = A[d.month - 1], C[d.month - 1]
        mean = a * (1 - env.exp(-B * power(env, dt[i], c))) * (total(courses[i]) / 24.0)
        if via == 'daily':
            env.check_eq('Bristow-Campbell mean', v[0], mean, scale=100)
            env.check('at most A times potential', env.le(v[0], a * (total(courses[i]) / 24.0), scale=100))
            env.check('not negative', env.le(0.0, v[0], scale=100))
        else:
            check_scaled(env, 'Bristow-Campbell mean of the day', v, courses[i], mean)


def obligations(tier, seed):
    obs = []
    month = ['2016-02-28', '2016-02-29', '2016-03-01', '2016-03-02']
    year = ['2015-12-31', '2016-01-01']
    gap = ['2016-05-30', '2016-05-31', '2016-06-03', '2016-06-04']
    years = ['2015-03-30', '2015-03-31', '2015-05-31', '2016-03-30', '2016-03-31']
    b = '%d days; extremes symbolic, parameters %s'
    for params in ('constant', 'monthly', 'all'):
        for t, dates in (('month', month), ('year', year), ('gap', gap), ('one', ['2016-07-01']), ('years', years)):
            obs.append(Ob('daily-%s-%s' % (t, params), bristow, dict(dates=dates, params=params, via='daily'),
                          bounds=b % (len(dates), params)))
    for params in ('constant', 'monthly'):
        obs.append(Ob('hourly-%s' % params, bristow, dict(dates=month[1:], params=params, sym_days=(1,)),
                      bounds=b % (3, params), weight=2))
    obs.append(Ob('hourly-gap', bristow, dict(dates=gap, params='monthly', sym_days=(0,)),
                  bounds=b % (4, 'monthly'), weight=2))
    obs.append(Ob('station', bristow, dict(dates=month[:3], params='monthly', via='station', sym_days=(1,)),
                  bounds=b % (3, 'monthly'), weight=2))
    return obs
