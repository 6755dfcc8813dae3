"""C12: mean-course temperatures use the course of the own month and hour"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import SAME_DAY, NAN, check_unchanged, days, expected_hours, snapshot, total
from .temp import frame, sun


def mean_course(env, months, sym_hours, all_hours=()):
    rows = []
    for h in range(24):
        row = []
        for m in range(1, 13):
            if m in months and h in sym_hours:
                row.append(env.real('course%d_%d' % (h, m), 0.0, 1.0))
            else:
                row.append(((h * 5 + m * 7) % 24) / 23.0)
        rows.append(row)
    df = pd.DataFrame(env.nparray(rows), index=range(24), columns=range(1, 13))
    return df, rows


def course(env, method, dates, sym_hours, missing=False, via='function'):
    idx = pd.DatetimeIndex(dates)
    n = len(idx)
    tmin = env.reals('tmin', n, 230.0, 300.0)
    tmax = [a + env.real('range%d' % i, 0.0, 40.0) for i, a in enumerate(tmin)]
    temp = env.reals('temp', n, 230.0, 340.0)
    gone = [False] * n
    if missing:
        for i in range(n):
            opts = ['nothing', 'tmin', 'tmax'] + (['temp'] if method.endswith('mean') else [])
            k = env.choice('missing%d' % i, opts)
            gone[i] = k != 'nothing'
            if gone[i]:
                dict(tmin=tmin, tmax=tmax, temp=temp)[k][i] = NAN
    mc, rows = mean_course(env, set(idx.month), sym_hours)
    data = frame(env, idx, tmin, tmax, temp)
    if via == 'function':
        snap, snap2 = snapshot(data), snapshot(mc)
        out = env.call(melodist.disaggregate_temperature, data, method=method, mean_course=mc,
                       sun_times=sun(env, idx))
        check_unchanged(env, 'daily input left unchanged', data, snap)
        check_unchanged(env, 'mean course left unchanged', mc, snap2)
    else:
        stn = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=data)
        stn.statistics.temp.mean_course = mc
        env.call(stn.disaggregate_temperature, method=method)
        out = stn.data_disagg.temp
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    ov = list(out.array)
    if len(ov) != 24 * n:
        return
    for d, day in enumerate(idx):
        v = ov[24 * d: 24 * d + 24]
        if gone[d]:
            for x in v:
                env.check_nan('missing input makes its day missing', x)
            continue
        if any(isnan(x) for x in v):
            env.check('value for every hour', False)
            continue
        col = [rows[h][day.month - 1] for h in range(24)]
        mean = total(col) / 24.0
        for h in range(24):
            if method == 'mean_course_min_max':
                r = tmin[d] + col[h] * (tmax[d] - tmin[d])
            else:
                r = temp[d] + (col[h] - mean) * (tmax[d] - tmin[d])
            env.check_eq('course of the own month and hour', v[h], r, scale=10)
        if method == 'mean_course_mean':
            env.check_eq('daily mean', total(v), 24 * temp[d], scale=48)


def obligations(tier, seed):
    obs = []
    for method in ('mean_course_min_max', 'mean_course_mean'):
        t = method[12:]
        for via in ('function', 'station'):
            obs.append(Ob('%s-%s' % (t, via), course, dict(
                method=method, dates=['2016-01-30', '2016-01-31', '2016-02-01'], sym_hours=tuple(range(24)),
                via=via), bounds='3 days over a month change, all values and courses symbolic'))
        obs.append(Ob('%s-missing' % t, course, dict(
            method=method, dates=['2015-12-30', '2015-12-31', '2016-01-01'], sym_hours=(0, 23),
            missing=True), bounds='3 days over a year change, any single input of each day missing'))
        obs.append(Ob('%s-gaps' % t, course, dict(
            method=method, dates=['2016-02-28', '2016-03-28', '2016-07-28', '2016-11-01'],
            sym_hours=(0, 9, 23)), bounds='4 days of different months'))
        obs.append(Ob('%s-months' % t, course, dict(
            method=method, dates=['2016-%02d-15' % m for m in range(1, 13)],
            sym_hours=(0, 17)), bounds='one day of each month'))
        obs.append(Ob('%s-same-day' % t, course, dict(
            method=method, dates=list(SAME_DAY), sym_hours=(0, 13), missing=True),
            bounds='4 days of different months and years, any single input of each day missing'))
    return obs
