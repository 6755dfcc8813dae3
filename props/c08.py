"""C08: master station disaggregation copies the master's hourly pattern"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import SAME_DAY, NAN, check_unchanged, day_values, days, expected_hours, snapshot, total


def master_series(env, first, n, sym_day, sym_hours, dry=()):
    """hourly record of n days; some hours of one day are arbitrary, other days have a fixed
    pattern or are dry"""
    idx = pd.date_range(first, periods=24 * n, freq='h')
    vals = []
    for i in range(24 * n):
        d, h = divmod(i, 24)
        if d == sym_day:
            vals.append(env.real('master%d' % h, 0.0, 50.0) if h in sym_hours else 0.0)
        elif d in dry:
            vals.append(0.0)
        else:
            vals.append(float((3 * h + 5 * d) % 7))
    return env.series(vals, idx), vals


def check_day(env, got, master, amount, zerodiv):
    s = total(master)
    if env.branch(s > 0.0):
        if isnan(amount):
            for x in got:
                env.check_nan('missing amount stays missing', x)
            return
        for x, m in zip(got, master):
            env.check_eq('hour has the share of the master', x * s, m * amount, scale=50)
        env.check_eq('daily sum preserved', total(got), amount)
    elif zerodiv == 'uniform':
        for x in got:
            if isnan(amount):
                env.check_nan('missing amount stays missing', x)
            else:
                env.check_eq('uniform when the master is dry', x, amount / 24.0)
    elif not isnan(amount):
        for x in got:
            env.check_eq('zero when the master is dry', x, 0.0)


def run(env, via, daily, master, zerodiv):
    if via == 'function':
        return env.call(melodist.precip_master_station, daily, master, zerodiv)
    if via == 'disagg_prec':
        return env.call(melodist.disagg_prec, daily, method='masterstation',
                        hourly_data_obs=master, zerodiv=zerodiv)
    st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1,
                  data_daily=pd.DataFrame({'precip': daily}))
    env.call(st.disaggregate_precipitation, method='masterstation', zerodiv=zerodiv,
             master_precip=master)
    return st.data_disagg.precip


def shares(env, via, start, n, sym_day, sym_hours, offset, zerodiv, nan_at=None):
    """daily series of n days; the master record starts offset days earlier and ends later"""
    idx = days(start, n)
    amounts = []
    for i in range(n):
        if i == nan_at and env.choice('missing%d' % i, [True, False]):
            amounts.append(NAN)
        else:
            amounts.append(env.real('amount%d' % i, 0.0, 100.0))
    first = idx[0] - pd.Timedelta(days=offset)
    pos = [(d - first).days for d in idx]
    master, mv = master_series(env, first, pos[-1] + 1 + offset, pos[sym_day], sym_hours, dry=(offset,))
    daily = env.series(amounts, idx)
    snap, snap2 = snapshot(daily), snapshot(master)
    out = run(env, via, daily, master, zerodiv)
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    for i, d in enumerate(idx):
        got = day_values(out, d)
        o = 24 * pos[i]
        check_day(env, got, mv[o: o + 24], amounts[i], zerodiv)
    check_unchanged(env, 'daily input left unchanged', daily, snap)
    check_unchanged(env, 'master left unchanged', master, snap2)


def obligations(tier, seed):
    obs = []
    b = '%d days, amounts symbolic, %s hours of one master day symbolic (others fixed, one dry)'
    for via in ('function', 'disagg_prec', 'station'):
        for zd in ('uniform', 'zero'):
            obs.append(Ob('shares-%s-%s' % (via, zd), shares, dict(
                via=via, start='2016-02-28', n=3, sym_day=1, sym_hours=(0, 5, 6, 13, 22, 23), offset=0,
                zerodiv=zd, nan_at=2), bounds=b % (3, 6)))
        obs.append(Ob('longer-master-%s' % via, shares, dict(
            via=via, start='2015-12-30', n=3, sym_day=2, sym_hours=(0, 1, 11, 12, 23), offset=2,
            zerodiv='uniform', nan_at=0), bounds=b % (3, 5) + ', master record longer on both sides'))
    obs.append(Ob('same-day', shares, dict(
        via='function', start=SAME_DAY, n=4, sym_day=3, sym_hours=(0, 7, 23), offset=0, zerodiv='uniform',
        nan_at=0), bounds=b % (4, 3) + ', days of different months and years'))
    obs.append(Ob('all-hours', shares, dict(
        via='function', start='2016-12-31', n=2, sym_day=1, sym_hours=tuple(range(24)), offset=0,
        zerodiv='uniform'), bounds=b % (2, 'all 24')))
    return obs
