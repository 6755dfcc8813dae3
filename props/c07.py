"""C07: equal distribution repeats or divides each daily value over its own day"""
import pandas as pd

import melodist
from engine.harness import Ob

from .common import (NAN, check_unchanged, day_values, days, expected_hours, maybe_missing, pick_days,
                     snapshot)


def run(env, what, data, idx, vals):
    if what == 'distribute':
        return env.call(melodist.distribute_equally, data.hum), 1
    if what == 'divide':
        return env.call(melodist.distribute_equally, data.precip, divide=True), 24
    if what == 'precip':
        return env.call(melodist.disagg_prec, data, method='equal'), 24
    if what == 'hum':
        return env.call(melodist.disaggregate_humidity, data, method='equal'), 1
    if what == 'wind':
        return env.call(melodist.disaggregate_wind, data.wind, method='equal'), 1
    raise KeyError(what)


def check_equal(env, out, idx, vals, div):
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    for d, v in zip(idx, vals):
        got = day_values(out, d)
        env.check('24 values per day', len(got) == 24)
        for x in got:
            if v != v if isinstance(v, float) else False:
                env.check_nan('missing day is missing in its own hours', x)
            else:
                env.check_eq('every hour has its share of the own day', x, v / div)


def frame_of(env, vals, idx):
    return env.frame(dict(hum=vals, precip=vals, wind=vals), idx)


def missing(env, what, start, n):
    idx = days(start, n)
    vals, miss = maybe_missing(env, 'value', n, 0.0, 100.0)
    data = frame_of(env, vals, idx)
    snap = snapshot(data)
    out, div = run(env, what, data, idx, vals)
    env.observe(out)
    check_equal(env, out, idx, vals, div)
    check_unchanged(env, 'input left unchanged', data, snap)


def gaps(env, what, start, n):
    idx = pick_days(env, start, n)
    vals = env.reals('value', len(idx), 0.0, 100.0)
    data = frame_of(env, vals, idx)
    out, div = run(env, what, data, idx, vals)
    check_equal(env, out, idx, vals, div)


def months(env, what, dates):
    """days far apart with the same day of month, each arbitrary or missing"""
    idx = pd.DatetimeIndex(dates)
    vals, miss = maybe_missing(env, 'value', len(idx), 0.0, 100.0)
    data = frame_of(env, vals, idx)
    out, div = run(env, what, data, idx, vals)
    env.observe(out)
    check_equal(env, out, idx, vals, div)


def long_range(env, what, start, n, missing_at):
    """a consecutive series over several months"""
    idx = days(start, n)
    vals = []
    for i in range(n):
        m = i in missing_at and env.choice('missing%d' % i, [True, False])
        vals.append(NAN if m else (env.real('value%d' % i, 0.0, 100.0)))
    data = frame_of(env, vals, idx)
    out, div = run(env, what, data, idx, vals)
    check_equal(env, out, idx, vals, div)


def station(env, start, n):
    idx = days(start, n)
    vals, miss = maybe_missing(env, 'value', n, 0.0, 100.0)
    data = frame_of(env, vals, idx)
    st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=data)
    env.call(st.disaggregate_wind, method='equal')
    env.call(st.disaggregate_humidity, method='equal')
    env.call(st.disaggregate_precipitation, method='equal')
    for v, div in (('wind', 1), ('hum', 1), ('precip', 24)):
        check_equal(env, st.data_disagg[v], idx, vals, div)


def obligations(tier, seed):
    obs = []
    whats = ['distribute', 'divide', 'precip', 'hum', 'wind']
    for w in whats:
        for start, n in (('2015-12-30', 4), ('2016-02-28', 3), ('2019-02-27', 3)):
            obs.append(Ob('missing-%s-%s' % (w, start), missing, dict(what=w, start=start, n=n),
                          bounds='%d days from %s, every missing pattern, values symbolic' % (n, start)))
        obs.append(Ob('gaps-%s' % w, gaps, dict(what=w, start='2016-02-27', n=5),
                      bounds='every subset of 5 days that contains the first and the last'))
        obs.append(Ob('months-%s' % w, months, dict(what=w, dates=[
            '2016-01-31', '2016-02-01', '2016-03-01', '2016-03-31', '2017-01-31']),
            bounds='5 days with equal days of month in different months and years'))
    obs.append(Ob('long-distribute', long_range, dict(
        what='distribute', start='2015-01-29', n=36, missing_at=(1, 3, 31, 33)),
        bounds='36 consecutive days, missing patterns of 4 of them', weight=3))
    obs.append(Ob('long-precip', long_range, dict(
        what='precip', start='2016-01-30', n=33, missing_at=(1, 2, 31, 32)),
        bounds='33 consecutive days, missing patterns of 4 of them', weight=3))
    obs.append(Ob('station', station, dict(start='2016-02-28', n=3),
                  bounds='3 days, every missing pattern, through the station interface'))
    return obs
