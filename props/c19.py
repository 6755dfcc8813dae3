"""C19: hourly radiation keeps the daily mean and the shape of its course"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import SAME_DAY, NAN, check_unchanged, days, expected_hours, pick_days, snapshot, total
from .rad import SHAPE, check_scaled, day_course, hourly


def scaled(env, method, start, n, lo, hi, sym_hours, dark=False, missing=False, via='function', gap=None,
           sums=True):
    idx = pd.DatetimeIndex(gap) if gap else days(start, n)
    n = len(idx)
    glob, isdark = [], []
    for i in range(n):
        isdark.append(dark and method == 'pot_rad' and env.choice('dark%d' % i, [False, True]))
        if missing and env.choice('missing%d' % i, [False, True]):
            glob.append(NAN)
        else:
            glob.append(env.real('glob%d' % i, lo, hi))
    mc = None
    if method == 'mean_course':
        cols = []
        for m in range(1, 13):
            s = sym_hours if m in set(idx.month) else ()
            cols.append(day_course(env, m, s, scale=0.5 + m / 12.0))
        mc = pd.DataFrame(env.nparray([[cols[m][h] for m in range(12)] for h in range(24)]),
                          index=range(24), columns=range(1, 13))
        courses = [cols[d.month - 1] for d in idx]
        pot = None
    else:
        courses = [day_course(env, i, () if i > 1 else sym_hours, isdark[i]) for i in range(n)]
        pot = hourly(env, idx, courses)
    data = env.frame(dict(glob=glob), idx)
    if via == 'function':
        snap = snapshot(data)
        out = env.call(melodist.disaggregate_radiation, data, pot_rad=pot, method=method, mean_course=mc)
        check_unchanged(env, 'daily input left unchanged', data, snap)
    else:
        st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=data)
        st.statistics.glob.mean_course = mc
        if method == 'pot_rad' and via == 'station-own':
            pot = melodist.potential_radiation(st.data_disagg.index, 11.0, 47.0, 1)
            courses = [[float(x) for x in pot.iloc[24 * i: 24 * i + 24]] for i in range(n)]
            env.call(st.disaggregate_radiation, method=method)
        else:
            env.call(st.disaggregate_radiation, method=method, pot_rad=pot)
        out = st.data_disagg.glob
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    ov = list(out.array)
    if len(ov) != 24 * n:
        return
    for d in range(n):
        v = ov[24 * d: 24 * d + 24]
        if isnan(glob[d]):
            for x in v:
                env.check_nan('missing with the daily value', x)
            continue
        if any(isnan(x) for x in v):
            env.check('value on days with data', False)
            continue
        if isdark[d]:
            for x in v:
                env.check_eq('zero without potential radiation', x, 0.0)
            continue
        check_scaled(env, 'proportional to the course', v, courses[d], glob[d])
        if sums:
            env.check_eq('daily mean', total(v), 24.0 * glob[d], scale=100)


def obligations(tier, seed):
    obs = []
    for method in ('pot_rad', 'mean_course'):
        for via in ('function', 'station'):
            obs.append(Ob('%s-%s' % (method, via), scaled, dict(
                method=method, start='2016-02-29', n=2, lo=20.0, hi=400.0, sym_hours=(7, 12), via=via),
                bounds='2 days over a month change, daily means and 2 course values per day symbolic'))
        obs.append(Ob('%s-small' % method, scaled, dict(
            method=method, start='2015-12-31', n=2, lo=0.0, hi=2.0, sym_hours=(), sums=False),
            bounds='2 days, daily means from 0', weight=2))
        obs.append(Ob('%s-missing' % method, scaled, dict(
            method=method, start='2015-12-31', n=3, lo=20.0, hi=400.0, sym_hours=(), missing=True,
            dark=True), bounds='3 days, every pattern of missing values and of dark days'))
        obs.append(Ob('%s-gaps' % method, scaled, dict(
            method=method, start=None, n=None, lo=20.0, hi=400.0, sym_hours=(9,), missing=True,
            gap=['2016-02-27', '2016-02-29', '2016-03-29', '2016-07-01']),
            bounds='4 days with calendar gaps, every missing pattern'))
        obs.append(Ob('%s-same-day' % method, scaled, dict(
            method=method, start=None, n=None, lo=20.0, hi=400.0, sym_hours=(), missing=True,
            gap=list(SAME_DAY)), bounds='4 days of different months and years, every missing pattern'))
    obs.append(Ob('station-own', scaled, dict(
        method='pot_rad', start='2016-03-30', n=3, lo=20.0, hi=400.0, sym_hours=(), via='station-own'),
        bounds='3 days, potential radiation of the station'))
    obs.append(Ob('single', scaled, dict(
        method='pot_rad', start='2016-02-29', n=1, lo=5.0, hi=400.0, sym_hours=(6, 10, 16)),
        bounds='1 day'))
    return obs
